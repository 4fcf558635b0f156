// Application code that uses the library inside its handlers: C43.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
// @source MinimumNodeServiceWithDiagnostics.cpp
// @source CanService.cpp
// @source CanServiceWithDiagnostics.cpp
// @source NodeVariableService.cpp
// @source EventTeachingService.cpp
// @source EventTeachingServiceWithDiagnostics.cpp
// @source EventConsumerService.cpp
// @source EventConsumerServiceWithDiagnostics.cpp
// @source EventProducerService.cpp
// @source EventProducerServiceWithDiagnostics.cpp
// @source LongMessageService.cpp
#include "fullnode.h"
#include "LongMessageService.h"

struct App;
static App *app; static int depth; static bool any;
// First service of the module: knows what the handlers have to be called for, from the stored bytes at that time.
struct Watch : Service
{
  VlcbServiceTypes getServiceID() const { return (VlcbServiceTypes)0; }
  byte getServiceVersionID() const { return 0; }
  void process(const Action *a);
};
struct App : Node
{
  Bus *bus; CanService *can; EventConsumerService *cons; EventProducerService *prod; unsigned nn; bool coe; static const unsigned EVENTS = 3, EVS = 2;
  int due, dueIndex, calls, requests, requestDue;           // handler calls
  Msg want[16]; int wanted;                                 // messages the application has asked for, in order
  int budget; byte pattern; bool watching = true; byte *kept;   // kept: storage as start or the last handler left it
  App(bool own) : Node(10 + EVENTS * (4 + EVS)) { app = this; geometry(0, EVENTS, EVS); regularSettings(mem, MODE_NORMAL); mem->m[LOCATION_FLAGS] &= 2; for (unsigned a = 10; a < mem->size; a++) mem->m[a] = 255; coe = own; due = calls = requests = requestDue = wanted = 0; dueIndex = -1; budget = 0; depth = 0; }
  byte *e(unsigned i) { return mem->m + evAddr(i); }
  // two stored events, of channels 5 and 0 (none), of any identity; a third entry is free
  void table() { if (any) { mem->symbolic(10, mem->size); return; } for (unsigned i = 0; i < 2; i++) { mem->symbolic(10 + 6 * i, 14 + 6 * i); mem->m[14 + 6 * i] = i ? 0 : 5; byte *x = mem->m + 10 + 6 * i; sx_assume(!((x[0] == 255) & (x[1] == 255))); } }
  bool used(unsigned i) { byte *x = e(i); return !((x[0] == 255) & (x[1] == 255) & (x[2] == 255) & (x[3] == 255)); }
  unsigned where(unsigned a, unsigned b) { unsigned r = EVENTS; for (int i = EVENTS - 1; i >= 0; i--) { byte *x = e(i); r = used(i) & (x[0] == hi(a)) & (x[1] == lo(a)) & (x[2] == hi(b)) & (x[3] == lo(b)) ? i : r; } return r; }
  unsigned channel(byte v) { unsigned r = EVENTS; for (int i = EVENTS - 1; i >= 0; i--) r = used(i) & (e(i)[4] == v) ? i : r; return r; }
  unsigned freeSlot() { unsigned r = EVENTS; for (int i = EVENTS - 1; i >= 0; i--) r = used(i) ? r : i; return r; }
  void go()
  {
    table(); bus = MAKE(Bus); MinimumNodeService *mns = MAKE(MinimumNodeService); can = MAKE(CanService, bus); cons = MAKE(EventConsumerService); prod = MAKE(EventProducerService); EventTeachingService *ets = MAKE(EventTeachingService); Watch *w = MAKE(Watch);
    start(coe ? MAKE(Controller, conf, {w, mns, can, prod, cons, ets, MAKE(ConsumeOwnEventsService), rec}) : MAKE(Controller, conf, {w, mns, can, cons, prod, ets, rec})); nn = conf->nodeNum; bus->nout = 0; kept = (byte *)malloc(mem->size); keep();
  }
  void keep() { memcpy(kept, mem->m, mem->size); }
  // identities with node number 65535 are reserved for unused entries
  void noReserved() { sx_assume(nn != 0xffff); for (unsigned i = 0; i < EVENTS; i++) sx_assume(!used(i) | !((e(i)[0] == 255) & (e(i)[1] == 255))); }
  void wantEvent(bool resp, bool on, unsigned at, int data, const byte *d)
  {
    static const byte acc[4] = {OPC_ACON, OPC_ACON1, OPC_ACON2, OPC_ACON3}, sho[4] = {OPC_ASON, OPC_ASON1, OPC_ASON2, OPC_ASON3}, racc[4] = {OPC_ARON, OPC_ARON1, OPC_ARON2, OPC_ARON3}, rsho[4] = {OPC_ARSON, OPC_ARSON1, OPC_ARSON2, OPC_ARSON3};
    byte *x = e(sx_fork(at)); bool s = (x[0] | x[1]) == 0; Msg &m = want[wanted++]; m.len = 5 + data; m.d[0] = (s ? (resp ? rsho : sho) : (resp ? racc : acc))[data] + !on; m.d[1] = s ? hi(nn) : x[0]; m.d[2] = s ? lo(nn) : x[1]; m.d[3] = x[2]; m.d[4] = x[3]; for (int i = 0; i < 3; i++) m.d[5 + i] = i < data ? d[i] : 0;
  }
  // one thing an application does
  void produce(int data)
  {
    sx_cover("produced"); bool on = sx_bool("on"); byte ch = any ? sx_u8("channel") : sx_fork(sx_bool("new")) ? 9 : 5; if (any) sx_assume(ch != 0); byte d[3] = {sx_u8("a"), sx_u8("b"), sx_u8("c")};
    unsigned at = sx_fork(channel(ch)); bool room = sx_fork(freeSlot() < EVENTS); bool known = at < EVENTS;
    if (data == 0) prod->sendEvent(on, ch); else if (data == 1) prod->sendEvent(on, ch, d[0]); else if (data == 2) prod->sendEvent(on, ch, d[0], d[1]); else prod->sendEvent(on, ch, d[0], d[1], d[2]);
    if (known || room) { at = sx_fork(channel(ch)); sx_assert(at < EVENTS, "a produced event is stored"); wantEvent(false, on, at, data, d); }
  }
  void respond(byte index, int data)
  {
    bool on = sx_bool("on"); byte d[3] = {sx_u8("a"), sx_u8("b"), sx_u8("c")};
    if (data == 0) prod->sendEventResponse(on, index); else if (data == 1) prod->sendEventResponse(on, index, d[0]); else if (data == 2) prod->sendEventResponse(on, index, d[0], d[1]); else prod->sendEventResponse(on, index, d[0], d[1], d[2]);
    wantEvent(true, on, index, data, d);
  }
  void act(byte index)
  {
    int n = sx_fork(sx_range("things", 0, budget)); budget -= n;
    for (int i = 0; i < n; i++)
    {
      int what = sx_fork(sx_range("what", 0, 2));
      if (what == 0) produce(pattern); else if (what == 1) respond(index, pattern ? 3 : 0);
      else { byte v = sx_u8("own"); ctl->sendCMDERR(v); Msg &m = want[wanted++]; m.len = 4; m.d[0] = OPC_CMDERR; m.d[1] = hi(nn); m.d[2] = lo(nn); m.d[3] = v; for (int j = 4; j < 8; j++) m.d[j] = 0; }
    }
  }
  void finish()
  {
    drain(); sx_assert(calls == due && requests == requestDue, "every message leads to the handler calls it is due");
    sx_assert(rec->n == wanted, "everything the application asked for is sent once, nothing else"); bool ok = true;
    for (int i = 0; i < wanted; i++) { ok = ok & (rec->out[i].len == want[i].len); for (int j = 0; j < 8; j++) ok = ok & (rec->out[i].d[j] == want[i].d[j]); } sx_assert(ok, "in the order asked for, with the content asked for");
    bool same = true; for (unsigned a = 0; a < mem->size; a++) same = same & (mem->m[a] == kept[a]); sx_assert(same, "what the handlers stored stays stored, and nothing else is"); sx_assert(bus->nout == wanted, "and leaves on the bus"); ok = true;
    for (int i = 0; i < wanted; i++) { CANFrame &f = bus->out[i]; ok = ok & (f.len == want[i].len) & !f.ext & !f.rtr; for (int j = 0; j < 8; j++) ok = ok & ((j >= f.len) | (f.data[j] == want[i].d[j])); } sx_assert(ok, "as frames of the same content");
  }
};
static const byte longOps[] = {0x90, 0x91, 0xB0, 0xB1, 0xD0, 0xD1, 0xF0, 0xF1, 0x93, 0x94}, shortOps[] = {0x98, 0x99, 0xB8, 0xB9, 0xD8, 0xD9, 0xF8, 0xF9};
static bool oneOf(byte v, const byte *l, int n) { bool r = false; for (int i = 0; i < n; i++) r = r | (v == l[i]); return r; }
static Msg given; static int givenWanted;
void Watch::process(const Action *a)
{
  if (!app->watching || !a || !(a->actionType == ACT_MESSAGE_IN || (a->actionType == ACT_MESSAGE_OUT))) return;
  sx_assert(app->calls == app->due && app->requests == app->requestDue, "the calls for one message are over before the next one");
  const VlcbMessage &m = a->vlcbMessage; given.len = m.len; for (int i = 0; i < 8; i++) given.d[i] = i < m.len ? m.data[i] : 0;
  bool in = a->actionType == ACT_MESSAGE_IN; if (!in && !app->coe) return;
  bool s = sx_fork(oneOf(m.data[0], shortOps, sizeof shortOps)), l = !s && sx_fork(oneOf(m.data[0], longOps, sizeof longOps));
  if (s || l) { unsigned at = sx_fork(app->where(s ? 0 : given.d[1] * 256u + given.d[2], given.d[3] * 256u + given.d[4])); if (at < App::EVENTS) { app->due++; app->dueIndex = at; } }
  else if (in && sx_fork(m.data[0] == OPC_AREQ)) { unsigned at = sx_fork(app->where(given.d[1] * 256u + given.d[2], given.d[3] * 256u + given.d[4])); if (at < App::EVENTS && sx_fork(app->e(at)[4] != 0)) { app->requestDue++; app->dueIndex = at; } }
}
static bool sameAsGiven(const VlcbMessage *v) { bool ok = v->len == given.len; for (int i = 0; i < 8; i++) ok = ok & ((i >= given.len) | (v->data[i] == given.d[i])); return ok; }
static void entered(byte ix, const VlcbMessage *v, int calls, int due)
{
  sx_assert(depth == 0, "a handler is not entered while one runs"); depth = 1; sx_assert(calls == due && ix == app->dueIndex, "a handler runs only for the messages it is due, once, with the entry that stores the event"); sx_assert(sameAsGiven(v), "and with the message");
  app->act(ix); sx_assert(sameAsGiven(v), "the message stays as it is while the handler runs"); depth = 0; app->keep();
}
static void eventHandler(byte ix, const VlcbMessage *v) { app->calls++; entered(ix, v, app->calls, app->due); }
static void requestHandler(byte ix, const VlcbMessage *v) { app->requests++; entered(ix, v, app->requests, app->requestDue); }
static Action incoming(const byte *ops, int nops)
{
  Msg m = symMsg(sx_fork(sx_range("long", 0, 1)) ? 8 : 5); m.d[0] = ops[sx_fork(sx_range("op", 0, nops - 1))];
  Action a = {ACT_MESSAGE_IN, {m.len}}; for (int i = 0; i < 8; i++) a.vlcbMessage.data[i] = m.d[i]; return a;
}
static const byte eventIn[] = {OPC_ACON, OPC_ASOF1}, requestIn[] = {OPC_AREQ}, bothIn[] = {OPC_ACOF, OPC_AREQ};
static void handlers(bool coe, const byte *ops, int nops, int messages, int budget, int data)
{
  if (budget) sx_need("produced"); App *n = new App(coe); n->go(); n->noReserved(); n->cons->setEventHandler(eventHandler); n->prod->setRequestEventHandler(requestHandler); n->budget = budget; n->pattern = data;
  for (int i = 0; i < messages; i++) n->ctl->putAction(incoming(ops, nops));       // all of them are waiting
  n->finish();
}
CASE(C43_event) { handlers(false, eventIn, 2, 1, 2, 0); }
CASE(C43_event_data) { handlers(false, eventIn, 1, 1, 2, sx_fork(sx_range("data", 1, 3))); }
CASE(C43_two_events) { handlers(false, eventIn, 1, 2, 2, 0); }
CASE(C43_request) { handlers(false, requestIn, 1, 1, 2, 0); }
CASE(C43_request_event) { handlers(false, bothIn, 2, 2, 2, 0); }
CASE(C43_own_events) { handlers(true, eventIn, 1, 1, 2, 0); }
CASE(C43_own_requests) { handlers(true, requestIn, 1, 1, 2, 3); }
// any table of three events
// @case tier=thorough cost=60
CASE(C43_any_table) { any = true; handlers(false, eventIn, 2, 1, 2, 0); }
// @case tier=thorough cost=60
CASE(C43_any_table_own) { any = true; handlers(true, eventIn, 1, 1, 1, 1); }
// @case tier=thorough cost=60
CASE(C43_three_events) { handlers(false, bothIn, 2, 3, 2, 0); }
// @case tier=thorough cost=60
CASE(C43_three_things) { handlers(false, eventIn, 2, 1, 3, 0); }

// an event handler that is replaced by itself takes effect with the next message
static int firstCalls, secondCalls;
static void second(byte, const VlcbMessage *) { secondCalls++; }
static void first(byte, const VlcbMessage *) { firstCalls++; app->cons->setEventHandler(second); }
CASE(C43_replaced_handler)
{
  App *n = new App(sx_fork(sx_bool("own"))); n->go(); n->watching = false; firstCalls = secondCalls = 0; n->cons->setEventHandler(first); byte *x = n->e(0);
  for (int i = 0; i < 2; i++) { Action a = {ACT_MESSAGE_IN, {5, {OPC_ACON, x[0], x[1], x[2], x[3]}}}; n->ctl->putAction(a); }
  n->drain(); sx_assert(firstCalls == 1 && secondCalls == 1, "each message is handled once, by the handler of its time");
}
// an event handler that writes variables and teaches: what it does is there when it returns, and a following request sees it
static void writer(byte ix, const VlcbMessage *m)
{
  Configuration *c = app->conf; c->writeEventEV(ix, 2, m->data[5]); byte id[4] = {m->data[1], m->data[2], m->data[6], m->data[7]}; byte at = c->findEventSpace();
  if (at < App::EVENTS) { c->writeEvent(at, id); c->writeEventEV(at, 1, 0); c->updateEvHashEntry(at); }
}
CASE(C43_writing_handler)
{
  sx_need("added"); App *n = new App(false); n->go(); n->noReserved(); n->cons->setEventHandler(writer); n->watching = false; byte *x = n->e(1); byte v = sx_u8("v"), en1 = sx_u8("en1"), en2 = sx_u8("en2"); unsigned at = sx_fork(n->where(x[0] * 256u + x[1], x[2] * 256u + x[3]));
  bool had = sx_fork(n->where(x[0] * 256u + x[1], en1 * 256u + en2) < App::EVENTS); byte keep0 = x[0], keep1 = x[1];
  Action a = {ACT_MESSAGE_IN, {8, {OPC_ACON3, x[0], x[1], x[2], x[3], v, en1, en2}}}; n->ctl->putAction(a);
  Action q = {ACT_MESSAGE_IN, {5, {OPC_REVAL, (byte)hi(n->nn), (byte)lo(n->nn), (byte)at, 2}}}; n->ctl->putAction(q); n->drain();
  sx_assert(n->rec->n == 1 && same(n->rec->out[0], M(OPC_NEVAL, hi(n->nn), lo(n->nn), at, 2, v)), "the next message sees what the handler has written");
  n->cons->setEventHandler(eventHandler); n->watching = true; n->rec->clear(); n->bus->nout = 0; n->keep(); if (!had) { sx_cover("added"); Action b = {ACT_MESSAGE_IN, {5, {OPC_ACOF, keep0, keep1, en1, en2}}}; n->ctl->putAction(b); n->finish(); sx_assert(n->calls == 1, "an event stored by a handler is consumed"); }
}

// --- long messages answered from their handler ------------------------------------------------------
enum { STREAM = 33, OTHER = 34, ECHO = 77, ERR = 78 };
struct Out { byte stream; unsigned len; byte d[16]; };
template <class S> struct Lm : Node
{
  S *svc; byte *buffer; Out want[6]; int wanted; Out *sending; int nsend; int completed; byte got[4][16]; unsigned gotLen[4]; byte status[8]; int calls;
  Lm() : Node(64) { geometry(0, 1, 0); regularSettings(mem, MODE_NORMAL); svc = MAKE(S); buffer = (byte *)calloc(1, 16); wanted = completed = calls = 0; start(MAKE(Controller, conf, {svc, rec})); svc->setDelay(0); depth = 0; }
  void frame(byte stream, byte seq, const byte *d) { Msg m; m.len = 8; m.d[0] = OPC_DTXC; m.d[1] = stream; m.d[2] = seq; for (int i = 0; i < 5; i++) m.d[3 + i] = d[i]; receive(m); }
};
typedef Lm<LongMessageService> Lite; typedef Lm<LongMessageServiceEx> Ex;
static Lite *lite; static Ex *ex; static byte copyBuf[16];
static bool reply(Lite *n, const byte *p, unsigned len, byte stream) { bool busy = n->svc->is_sending(); if (!busy) memcpy(copyBuf, p, len); bool r = n->svc->sendLongMessage(busy ? p : copyBuf, len, stream); sx_assert(r == !busy, "a reply is accepted unless one is being sent"); return r; }
static bool reply(Ex *n, const byte *p, unsigned len, byte stream) { return n->svc->sendLongMessage(p, len, stream); }
template <class T> static void answer(T *n, void *p, unsigned len, byte status)
{
  sx_assert(depth == 0, "the handler is not entered while it runs"); depth = 1; sx_assert(n->calls < 8, "too many handler calls"); n->status[n->calls++] = status; byte seen[16]; for (unsigned i = 0; i < len; i++) seen[i] = ((byte *)p)[i];
  byte err[3] = {'e', status, 'r'}; bool good = status == LONG_MESSAGE_COMPLETE; const byte *d = good ? (byte *)p : err; unsigned l = good ? len : 3; byte st = good ? ECHO + n->completed * 10 : ERR;
  if (good) { sx_assert(n->completed < 4, "no message is handed over twice"); n->gotLen[n->completed] = len; memcpy(n->got[n->completed++], p, len); }
  if (reply(n, d, l, st)) { sx_cover("answered"); sx_assert(n->wanted < 6, "too many answers"); Out &o = n->want[n->wanted++]; o.stream = st; o.len = l; memcpy(o.d, good ? seen : err, l); }
  else sx_cover("busy");
  bool ok = true; for (unsigned i = 0; i < len; i++) ok = ok & (((byte *)p)[i] == seen[i]); sx_assert(ok, "the message stays as it is while the handler runs"); depth = 0;
}
static void liteHandler(void *p, unsigned len, byte, byte status) { answer(lite, p, len, status); }
static void exHandler(void *p, unsigned len, byte, byte status) { answer(ex, p, len, status); }
// everything that was sent: the fragments of each answer in order, each answer complete
template <class T> static void answersSent(T *n)
{
  unsigned at[6], seq[6]; bool started[6]; for (int i = 0; i < 6; i++) { at[i] = seq[i] = 0; started[i] = false; }
  for (int k = 0; k < n->rec->n; k++)
  {
    const Msg &m = n->rec->out[k]; sx_assert(m.len == 8 && m.d[0] == OPC_DTXC, "only fragments are sent"); byte st = sx_fork(m.d[1]); int w = -1;
    for (int i = n->wanted - 1; i >= 0; i--) if (n->want[i].stream == st && (!started[i] || at[i] < n->want[i].len)) w = i;      // the first one that is not complete yet
    sx_assert(w >= 0, "a fragment belongs to an answer"); Out &o = n->want[w]; bool ok = m.d[2] == (byte)seq[w]++;
    if (!started[w]) { started[w] = true; ok = ok & (m.d[3] == 0) & (m.d[4] == o.len) & (m.d[7] == 0); }
    else for (int i = 0; i < 5; i++) { ok = ok & (m.d[3 + i] == (at[w] < o.len ? o.d[at[w]] : 0)); at[w] += at[w] < o.len; }
    sx_assert(ok, "fragments carry the bytes of the answer in order");
  }
  for (int i = 0; i < n->wanted; i++) sx_assert(started[i] && at[i] == n->want[i].len, "every accepted answer is sent completely");
}
// two messages; the sketch polls zero or one time before each fragment; the second one may miss a fragment or come on another stream
template <class T> static void answering(T *n, bool mayFail, int maxLen)
{
  sx_need("answered"); unsigned len[2]; byte d[2][16]; bool lost = false;
  for (int k = 0; k < 2; k++)
  {
    len[k] = k ? 6 : sx_fork(sx_range("len", 1, maxLen)); for (unsigned i = 0; i < 16; i++) d[k][i] = i < len[k] ? sx_u8("byte") : 0; unsigned frags = (len[k] + 4) / 5; byte st = k ? OTHER : STREAM;
    byte h[5] = {0, (byte)len[k], 0, 0, 0}; if (sx_fork(sx_bool("poll"))) n->svc->process(), n->drain(); n->frame(st, 0, h);
    bool lose = k == 0 && mayFail && sx_fork(sx_bool("lose")); bool late = lose && sx_fork(sx_bool("late")); lost |= lose;
    for (unsigned f = 0; f < frags; f++)
    {
      if (sx_fork(sx_bool("poll"))) n->svc->process(), n->drain();
      if (late && f == frags - 1) { env::now += 10000; n->svc->process(); n->drain(); break; }
      n->frame(st, f + 1 + (lose && !late && f == frags - 1), d[k] + 5 * f);
    }
  }
  for (int i = 0; i < 12; i++) { n->svc->process(); n->drain(); } sx_assert(!n->svc->is_sending(), "answers end");
  sx_assert(n->calls == 2 && n->completed == 2 - lost, "every message is handed over once"); int at = 0; for (int k = lost ? 1 : 0; k < 2; k++, at++) { bool ok = n->gotLen[at] == len[k]; for (unsigned i = 0; i < len[k]; i++) ok = ok & (n->got[at][i] == d[k][i]); sx_assert(ok, "unaffected by answering the one before"); }
  answersSent(n);
}
static byte streams[2] = {STREAM, OTHER};
static Lite *newLite() { lite = new Lite(); lite->svc->subscribe(streams, 2, lite->buffer, 16, liteHandler); env::now = 100000; return lite; }
static Ex *newEx() { ex = new Ex(); ex->svc->allocateContexts(2, 16, 2); ex->svc->subscribe(streams, 2, exHandler); env::now = 100000; return ex; }
CASE(C43_long_answered) { sx_need("busy"); answering(newLite(), false, 11); }
CASE(C43_long_error_answered) { answering(newLite(), true, 6); }
CASE(C43_long_ex_answered) { answering(newEx(), false, 11); }
CASE(C43_long_ex_error_answered) { answering(newEx(), true, 6); }
