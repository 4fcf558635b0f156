// Several modules on one bus: C38. The lights of a whole module: C40.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
// @source CanService.cpp
// @source NodeVariableService.cpp
// @source EventTeachingService.cpp
// @source EventConsumerService.cpp
// @source EventProducerService.cpp
// @source LongMessageService.cpp
// @source LEDUserInterface.cpp
// @source LED.cpp
// @source Switch.cpp
#include "node.h"
#include "MinimumNodeService.h"
#include "CanService.h"
#include "NodeVariableService.h"
#include "EventTeachingService.h"
#include "EventConsumerService.h"
#include "EventProducerService.h"
#include "LongMessageService.h"
#include "LEDUserInterface.h"
#include "bus.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }

// --- C38 ---------------------------------------------------------------------------------------
enum { UNITS = 3, NVS = 1, EVENTS = 2, EVS = 1 };
struct Station; struct Wire { Station *at[UNITS]; int n; CANFrame log[120]; int sent; };
struct Station : CanTransport
{
  Wire *w; int me; CANFrame q[60]; int n, pos;
  void reset() {}
  unsigned int receiveCounter() { return 0; }
  unsigned int transmitCounter() { return 0; }
  unsigned int receiveErrorCounter() { return 0; }
  unsigned int transmitErrorCounter() { return 0; }
  unsigned int errorStatus() { return 0; }
  bool available() { return pos < n; }
  CANFrame getNextCanFrame() { sx_assert(pos < n, "a frame is fetched only when one is available"); return q[pos++]; }
  bool sendCanFrame(CANFrame *f) { sx_assert(w->sent < 120, "the modules come to rest"); w->log[w->sent++] = *f; for (int i = 0; i < w->n; i++) if (i != me) w->at[i]->put(*f); return true; }
  void put(const CANFrame &f) { sx_assert(n < 60, "the modules come to rest"); q[n++] = f; }
};
struct Handled { int n; byte index; Msg m; };
static Handled handled[UNITS];
static void took(int u, byte ix, const VlcbMessage *v) { Handled &h = handled[u]; h.n++; h.index = ix; h.m.len = v->len; for (int i = 0; i < 8; i++) h.m.d[i] = i < v->len ? v->data[i] : 0; }
static void took0(byte ix, const VlcbMessage *v) { took(0, ix, v); }
static void took1(byte ix, const VlcbMessage *v) { took(1, ix, v); }
static void took2(byte ix, const VlcbMessage *v) { took(2, ix, v); }
struct Unit : Node
{
  Station *s; MinimumNodeService *mns; CanService *can; NodeVariableService *nv; EventTeachingService *ets; EventConsumerService *cons; EventProducerService *prod; LongMessageService *lms; unsigned nn; byte id; byte *old;
  Unit() : Node(10 + NVS + EVENTS * (4 + EVS)) { geometry(NVS, EVENTS, EVS); }
  void go(Wire *w, int me, bool normal)
  {
    regularSettings(mem, normal ? MODE_NORMAL : MODE_UNINITIALISED); if (!normal) mem->m[2] = mem->m[3] = 0; mem->m[4] &= 2; for (unsigned i = 11; i < mem->size; i++) mem->m[i] = 255; mem->m[10] = sx_u8("nv");
    s = MAKE(Station); s->w = w; s->me = me; w->at[w->n++] = s; lms = MAKE(LongMessageService); mns = MAKE(MinimumNodeService); can = MAKE(CanService, s); nv = MAKE(NodeVariableService); ets = MAKE(EventTeachingService); cons = MAKE(EventConsumerService); prod = MAKE(EventProducerService);
    cons->setEventHandler(me == 0 ? took0 : me == 1 ? took1 : took2); handled[me].n = 0;
    start(MAKE(Controller, conf, {mns, can, nv, ets, cons, prod, lms, rec})); nn = conf->nodeNum; id = conf->CANID; sx_assume(id <= 99); if (normal) sx_assume(nn != 0 && nn != 0xffff);
    snap();
  }
  void snap() { old = (byte *)malloc(mem->size); memcpy(old, mem->m, mem->size); }
  void unchanged(const char *why) { bool ok = true; for (unsigned i = 0; i < mem->size; i++) ok = ok & (mem->m[i] == old[i]); sx_assert(ok, why); }
};
struct Layout
{
  Wire w; Unit *u[UNITS]; int n;
  Layout(int units, bool normal = true)
  {
    memset(&w, 0, sizeof w); n = units; env::now = sx_u64("clock"); for (int i = 0; i < n; i++) { u[i] = new Unit; u[i]->go(&w, i, normal); }
    if (normal) for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) sx_assume(u[i]->nn != u[k]->nn);
  }
  void differentIds() { for (int i = 0; i < n; i++) { sx_assume(u[i]->id != 0); for (int k = 0; k < i; k++) sx_assume(u[i]->id != u[k]->id); } }
  bool busy() { for (int i = 0; i < n; i++) if (u[i]->s->pos < u[i]->s->n || u[i]->ctl->pendingAction()) return true; return false; }
  // the modules are polled in any order for a while, and then until there is nothing left to do
  void run(int steps) { for (int k = 0; k < steps && busy(); k++) u[sx_fork(sx_range("next", 0, n - 1))]->ctl->process(); rest(); }
  void rest() { int k = 0; while (busy()) { sx_assert(k++ < 60, "the modules come to rest"); for (int i = 0; i < n; i++) u[i]->ctl->process(); } }
  void tell(const M &m) { CANFrame f; f.ext = f.rtr = false; f.id = (0xB << 7); f.len = m.n; for (int i = 0; i < 8; i++) f.data[i] = i < m.n ? m.b[i] : 0; for (int i = 0; i < n; i++) u[i]->s->put(f); }
  void clear() { w.sent = 0; for (int i = 0; i < n; i++) { u[i]->rec->clear(); u[i]->s->n = u[i]->s->pos = 0; } }
  int said(const M &m) { int c = 0; for (int i = 0; i < w.sent; i++) { bool ok = w.log[i].len == m.n; for (int k = 0; k < m.n; k++) ok = ok & (w.log[i].data[k] == (byte)m.b[k]); c += ok; } return c; }
};
// an enumeration ends with an id no other module has, and leaves the others alone
static void enumerate(int how, int steps)
{
  Layout l(3); sx_assume(l.u[1]->id && l.u[2]->id); Unit *a = l.u[0]; unsigned nn = a->nn;
  if (how == 0) { a->ctl->putAction(ACT_START_CAN_ENUMERATION); l.run(steps); }
  else if (how == 1) { sx_assume(a->id != 0); l.tell(M(OPC_ENUM, hi(nn), lo(nn))); l.run(steps); }
  // two modules have the same id, and one of them sends
  else { sx_assume((l.u[1]->id == a->id) & (l.u[2]->id != a->id)); l.u[1]->ctl->sendWRACK(); l.run(steps); }
  uint64_t waited = sx_u16("wait"); sx_assume(waited >= 100); env::now += waited; l.rest(); for (int i = 0; i < 3; i++) { l.u[i]->poll(); } l.rest();
  byte id = a->conf->CANID; sx_assert(id >= 1 && id <= 99, "the module has a valid CAN id"); sx_assert(id != l.u[1]->conf->CANID && id != l.u[2]->conf->CANID, "no other module has the same id"); sx_assert(a->mem->m[LOCATION_CANID] == id, "the id is stored");
  l.u[1]->unchanged("the other modules keep theirs"); l.u[2]->unchanged("the other modules keep theirs"); a->mem->m[LOCATION_CANID] = a->old[LOCATION_CANID]; a->unchanged("nothing else changes");
  sx_assert(l.said(M(OPC_NNACK, hi(nn), lo(nn))) == (how == 1), "a commanded enumeration is confirmed"); for (int i = 0; i < 3; i++) sx_assert(handled[i].n == 0, "enumeration is not seen by the application");
  // from now on it uses the new id, and nobody is disturbed by it
  l.clear(); a->ctl->sendWRACK(); l.rest(); sx_assert(l.w.sent == 1 && (l.w.log[0].id & 0x7f) == id, "the new id is used, and there is no conflict");
}
CASE(C38_enumerate_user) { enumerate(0, 5); }
CASE(C38_enumerate_command) { enumerate(1, 5); }
CASE(C38_enumerate_conflict) { enumerate(2, 5); }
// a node number offered by the configuration tool is taken by one module: the last that asked
static void numbering(int steps)
{
  sx_need("crossed"); sx_need("taken"); Layout l(2, false); l.differentIds(); unsigned given = sx_u16("given"); sx_assume(given != 0); bool crossed = sx_fork(sx_bool("crossed"));
  l.u[0]->ctl->putAction(ACT_CHANGE_MODE); if (!crossed) { l.run(steps); env::now += 100; l.rest(); l.u[0]->poll(); l.rest(); } l.u[1]->ctl->putAction(ACT_CHANGE_MODE); l.run(steps);
  env::now += 100; l.rest(); for (int i = 0; i < 2; i++) l.u[i]->poll(); l.rest();
  l.tell(M(OPC_SNN, hi(given), lo(given))); l.run(2); int have = 0; for (int i = 0; i < 2; i++) if (sx_fork(l.u[i]->conf->currentMode == MODE_NORMAL)) { have++; sx_assert(l.u[i]->conf->nodeNum == given, "a module takes the number given"); } else sx_assert(l.u[i]->conf->nodeNum == 0, "a module that is not chosen takes no number");
  sx_assert(have <= 1, "no two modules take the same node number"); if (crossed) sx_cover("crossed"); else { sx_cover("taken"); sx_assert(have == 1 && l.u[1]->conf->currentMode == MODE_NORMAL, "the last module that asked takes the number"); }
  sx_assert(l.said(M(OPC_NNACK, hi(given), lo(given))) == have, "and confirms it"); if (!crossed) sx_assert(l.u[0]->conf->CANID != l.u[1]->conf->CANID, "CAN ids differ");
  sx_assert(!handled[0].n && !handled[1].n, "the application sees no events");
}
CASE(C38_numbering) { numbering(4); }
// an event taught to a module by the configuration tool, and then produced by another one
static void taught(bool shorts, int steps)
{
  sx_need("done"); Layout l(3); l.differentIds(); Unit *a = l.u[0], *b = l.u[1]; byte ch = sx_u8("channel"), ev = sx_u8("ev"); sx_assume(ch != 0); unsigned en = sx_u16("en"), who = shorts ? 0 : a->nn; sx_assume(shorts || en != 0);
  // the producer has the event in its table, the consumer learns it
  byte *e = a->mem->m + a->evAddr(1); e[0] = hi(who); e[1] = lo(who); e[2] = hi(en); e[3] = lo(en); e[4] = ch; sx_assume(who != 0 || en != 0xffff || true); a->snap();
  l.tell(M(OPC_NNLRN, hi(b->nn), lo(b->nn))); l.rest(); l.tell(M(OPC_EVLRN, hi(who), lo(who), hi(en), lo(en), 1, ev)); l.rest(); l.tell(M(OPC_NNULN, hi(b->nn), lo(b->nn))); l.rest();
  sx_assert(l.said(M(OPC_WRACK, hi(b->nn), lo(b->nn))) == 1 && l.w.sent == 2, "the module that learns answers"); a->unchanged("other modules learn nothing"); l.u[2]->unchanged("other modules learn nothing"); sx_assert(!handled[0].n && !handled[1].n && !handled[2].n, "teaching runs no handlers");
  l.clear(); bool on = sx_fork(sx_bool("on")); int data = sx_fork(sx_range("data", 0, 3)); byte x = sx_u8("x"), y = sx_u8("y"), z = sx_u8("z");
  switch (data) { case 0: a->prod->sendEvent(on, ch); break; case 1: a->prod->sendEvent(on, ch, x); break; case 2: a->prod->sendEvent(on, ch, x, y); break; default: a->prod->sendEvent(on, ch, x, y, z); }
  l.run(steps); sx_assert(l.w.sent == 1, "one message is sent"); sx_assert(handled[0].n == 0 && handled[2].n == 0, "modules that were not taught do not react"); sx_assert(handled[1].n == 1, "the module that was taught reacts once"); sx_cover("done");
  Handled &h = handled[1]; byte *s = b->mem->m + b->evAddr(h.index < EVENTS ? h.index : 0); sx_assert(h.index < EVENTS && s[0] == hi(who) && s[1] == lo(who) && s[2] == hi(en) && s[3] == lo(en) && s[4] == ev, "with the entry it was taught");
  bool ok = (h.m.len == 5 + data) & ((h.m.d[0] & 1) == !on) & (h.m.d[1] == hi(a->nn)) & (h.m.d[2] == lo(a->nn)) & (h.m.d[3] == hi(en)) & (h.m.d[4] == lo(en)) & (data < 1 || h.m.d[5] == x) & (data < 2 || h.m.d[6] == y) & (data < 3 || h.m.d[7] == z); sx_assert(ok, "and with the state, the event and the data that were produced");
  a->unchanged("producing an event that is stored changes nothing");
}
CASE(C38_taught_long) { taught(false, 4); }
CASE(C38_taught_short) { taught(true, 4); }
// one module says what it produces, the other one is taught that
CASE(C38_default_events)
{
  Layout l(2); l.differentIds(); Unit *a = l.u[0], *b = l.u[1]; byte ch = sx_u8("channel"), ev = sx_u8("ev"); sx_assume(ch != 0);
  a->prod->sendEvent(true, ch); l.rest(); sx_assert(l.w.sent == 1 && !handled[1].n, "nobody knows the event yet"); CANFrame f = l.w.log[0]; sx_assert(f.len == 5 && f.data[0] == OPC_ACON && f.data[1] == hi(a->nn) && f.data[2] == lo(a->nn), "a long event of the producer"); l.clear();
  l.tell(M(OPC_NNLRN, hi(b->nn), lo(b->nn))); l.tell(M(OPC_EVLRN, f.data[1], f.data[2], f.data[3], f.data[4], 1, ev)); l.tell(M(OPC_NNULN, hi(b->nn), lo(b->nn))); l.run(3); l.clear();
  for (int i = 0; i < 2; i++) { handled[1].n = 0; a->prod->sendEvent(i, ch); l.rest(); sx_assert(handled[1].n == 1 && handled[0].n == 0, "the module that was taught reacts once"); sx_assert(handled[1].m.d[0] == (i ? OPC_ACON : OPC_ACOF) && handled[1].m.d[3] == f.data[3] && handled[1].m.d[4] == f.data[4], "to the same event each time"); }
}
// questions and commands: only the module they name answers and changes
static void asked(int steps)
{
  sx_need("named"); sx_need("other"); Layout l(2); l.differentIds(); Msg m; m.len = 8; for (int i = 0; i < 8; i++) m.d[i] = sx_u8("d"); unsigned to = m.d[1] * 256u + m.d[2];
  static const byte ops[] = {OPC_RQNPN, OPC_RQSD, OPC_MODE, OPC_NNLRN, OPC_NNEVN, OPC_RQEVN, OPC_NERD, OPC_NENRD, OPC_REVAL, OPC_NVRD, OPC_NVSET, OPC_NVSETRD, OPC_CANID, OPC_NNCLR, OPC_NNRST};
  m.d[0] = ops[sx_fork(sx_range("op", 0, sizeof ops - 1))]; if (m.d[0] == OPC_NNLRN || m.d[0] == OPC_MODE) sx_assume(to != 0); if (m.d[0] == OPC_CANID) for (int i = 0; i < 2; i++) sx_assume(m.d[3] != l.u[i]->id);
  bool mine[2]; for (int i = 0; i < 2; i++) mine[i] = sx_fork(to == l.u[i]->nn); l.tell(M(m.d[0], m.d[1], m.d[2], m.d[3], m.d[4], m.d[5], m.d[6], m.d[7])); l.run(steps);
  for (int i = 0; i < 2; i++) if (!mine[i]) { sx_cover("other"); sx_assert(l.u[i]->rec->n == 0, "a module that is not named does not answer"); l.u[i]->unchanged("and changes nothing"); } else sx_cover("named");
  for (int i = 0; i < l.w.sent; i++) sx_assert((mine[0] | mine[1]) && l.w.log[i].data[1] == hi(to) && l.w.log[i].data[2] == lo(to), "answers come from the module named");
  if (mine[0] | mine[1]) sx_assert(l.w.sent > 0 || m.d[0] == OPC_NNLRN || m.d[0] == OPC_MODE || m.d[0] == OPC_NNRST || m.d[0] == OPC_NERD || m.d[0] == OPC_RQSD || m.d[0] == OPC_NVRD, "the module named answers");
  sx_assert(!handled[0].n && !handled[1].n, "commands run no event handlers");
}
CASE(C38_asked) { asked(2); }
// a long message reaches the modules that listen to its stream, among other traffic
static byte text[16]; static unsigned textLen; static int texts[UNITS];
static void heard(int u, void *p, unsigned len, byte status) { texts[u]++; sx_assert(status == LONG_MESSAGE_COMPLETE && len == textLen, "the message is complete"); bool ok = true; for (unsigned i = 0; i < len && i < 16; i++) ok = ok & (((byte *)p)[i] == text[i]); sx_assert(ok, "with the bytes sent"); }
static void heard1(void *p, unsigned len, byte, byte status) { heard(1, p, len, status); }
static void heard2(void *p, unsigned len, byte, byte status) { heard(2, p, len, status); }
static void longText(unsigned from, unsigned to, int steps)
{
  Layout l(3); l.differentIds(); byte stream = sx_u8("stream"), other = sx_u8("other"); sx_assume(other != stream); byte list1[1] = {stream}, list2[1] = {other}, b1[16], b2[16]; texts[1] = texts[2] = 0;
  l.u[1]->lms->subscribe(list1, 1, b1, 16, heard1); l.u[2]->lms->subscribe(list2, 1, b2, 16, heard2); l.u[0]->lms->setDelay(0); textLen = sx_fork(sx_range("len", from, to)); for (unsigned i = 0; i < textLen; i++) text[i] = sx_u8("byte");
  env::now += 1000; l.u[0]->lms->sendLongMessage(text, textLen, stream);
  for (int k = 0; k < steps; k++) { int who = sx_fork(sx_range("next", 0, 2)); if (k == 1) l.u[2]->ctl->sendWRACK(); if (who == 0) l.u[0]->lms->process(); l.u[who]->ctl->process(); env::now += 1; }
  for (int k = 0; k < 4; k++) { for (int i = 0; i < 3; i++) l.u[i]->lms->process(); l.rest(); env::now += 1; }
  sx_assert(texts[1] == 1 && texts[2] == 0, "the module that listens hears it once, the other one does not"); sx_assert(!l.u[0]->lms->is_sending(), "sending ends"); for (int i = 0; i < 3; i++) { l.u[i]->unchanged("a long message changes nothing stored"); sx_assert(!handled[i].n, "and is no event"); }
}
CASE(C38_long_message) { longText(1, 12, 4); }

// --- C40 ---------------------------------------------------------------------------------------
enum { GREEN = 4, YELLOW = 7, BUTTON = 8 };
static bool green() { return env::pinOut[GREEN]; }
static bool yellow() { return env::pinOut[YELLOW]; }
struct Panel : Node
{
  Bus *bus; LEDUserInterface *ui; unsigned nn;
  Panel(int mode, bool uiFirst) : Node(10 + NVS + EVENTS * (4 + EVS))
  {
    env::now = sx_u64("clock"); env::pinIn[BUTTON] = 1; geometry(NVS, EVENTS, EVS); regularSettings(mem, mode == MODE_SETUP ? MODE_NORMAL : mode); mem->m[4] &= 2; if (mode == MODE_UNINITIALISED) mem->m[2] = mem->m[3] = 0; for (unsigned i = 10; i < mem->size; i++) mem->m[i] = 255;
    bus = MAKE(Bus); ui = MAKE(LEDUserInterface, GREEN, YELLOW, BUTTON); Service *m = MAKE(MinimumNodeService), *c = MAKE(CanService, bus), *v = MAKE(NodeVariableService), *t = MAKE(EventTeachingService), *e = MAKE(EventConsumerService), *p = MAKE(EventProducerService);
    if (uiFirst) start(MAKE(Controller, conf, {ui, m, c, v, t, e, p, rec})); else start(MAKE(Controller, conf, {c, m, v, t, e, p, rec, ui}));
    nn = conf->nodeNum; if (mode != MODE_UNINITIALISED) sx_assume(nn != 0 && nn != 0xffff); if (mode == MODE_SETUP) { ctl->putAction(ACT_RENEGOTIATE); drain(); }
    dark(); rec->clear(); bus->nout = 0;
  }
  // activity is over
  void dark() { poll(); env::now += 5; poll(); poll(); }
  int mode_() { return params[PAR_FLAGS] & PF_NORMAL ? MODE_NORMAL : MODE_SETUP; }
  int mode() { bool n = params[PAR_FLAGS] & PF_NORMAL; if (sx_fork(n)) return MODE_NORMAL; rec->clear(); receive(M(OPC_RQNP)); bool s = rec->n; dark(); return s ? MODE_SETUP : MODE_UNINITIALISED; }
  void shows(int m)
  {
    sx_assert(green() == (m == MODE_UNINITIALISED), "the green LED is lit in uninitialised mode only");
    if (m == MODE_SETUP) { bool a = yellow(); env::now += 500; poll(); bool b = yellow(); env::now += 499; poll(); sx_assert(b != a && yellow() == b, "the yellow LED blinks in setup mode"); } else { sx_assert(yellow() == (m == MODE_NORMAL), "the yellow LED is lit in normal mode only"); env::now += 600; poll(); sx_assert(yellow() == (m == MODE_NORMAL), "and does not blink"); }
  }
};
static int someMode() { int k = sx_fork(sx_range("mode", 0, 2)); return k == 0 ? MODE_SETUP : k == 1 ? MODE_NORMAL : MODE_UNINITIALISED; }
// from the start on
CASE(C40_start) { int m = someMode(); Panel p(m, sx_fork(sx_bool("first"))); sx_assert(p.mode() == m, "the module is in its mode"); p.shows(m); }
// after any message, or anything the button asks for
static void afterMessages(int count)
{
  sx_need("changed"); int m = someMode(); Panel p(m, sx_fork(sx_bool("first")));
  for (int i = 0; i < count; i++)
  {
    Msg x; x.len = 8; for (int k = 0; k < 8; k++) x.d[k] = sx_u8("d"); sx_assume(x.d[0] != OPC_NNRSM && x.d[3] != MODE_HEARTBEAT_ON); if (i) { static const byte ops[] = {OPC_SNN, OPC_MODE, OPC_RQNN, OPC_NNLRN}; x.d[0] = ops[sx_fork(sx_range("op", 0, 3))]; }
    int what = sx_fork(sx_range("what", 0, 2)); if (what == 0) p.receive(x); else { p.ctl->putAction(what == 1 ? ACT_CHANGE_MODE : ACT_RENEGOTIATE); p.drain(); }
    p.dark();
  }
  int now = p.mode(); if (now != m) sx_cover("changed"); p.shows(now);
}
CASE(C40_after_message) { afterMessages(1); }
// @case cost=30
CASE(C40_after_messages) { afterMessages(2); }
// frames and messages are seen as a flash of the green LED
static void flash(Panel &p, bool expected)
{
  if (expected) { sx_assert(green(), "the green LED is lit"); env::now += 4; p.poll(); sx_assert(green(), "long enough to be seen"); env::now++; p.poll(); sx_assert(!green(), "and goes out again"); }
  else sx_assert(!green(), "the green LED stays dark");
}
CASE(C40_frame_received)
{
  sx_need("message"); sx_need("extended"); Panel p(sx_fork(sx_bool("setup")) ? MODE_SETUP : MODE_NORMAL, sx_fork(sx_bool("first"))); sx_assert(!green(), "dark when idle");
  for (int i = 0; i < 2; i++)
  {
    CANFrame f = symCanFrame(); f.ext = sx_fork(f.ext); f.rtr = sx_fork(f.rtr); if (f.rtr && !f.ext) return; f.len = sx_fork(f.len);
    // messages that nobody answers, so that there is one flash
    if (!f.ext) { sx_assume(f.len > 0 && f.data[0] == OPC_ACON && (f.id & 0x7f) != p.conf->CANID); sx_cover("message"); } else sx_cover("extended");
    p.bus->put(f); p.poll(); flash(p, !f.ext); env::now += 10; p.poll();
  }
}
CASE(C40_message_sent)
{
  Panel p(sx_fork(sx_bool("setup")) ? MODE_SETUP : MODE_NORMAL, sx_fork(sx_bool("first"))); sx_assert(!green(), "dark when idle");
  for (int i = 0; i < 2; i++) { VlcbMessage v; v.len = sx_range("len", 1, 8); for (int k = 0; k < 8; k++) v.data[k] = sx_u8("d"); p.ctl->sendMessage(&v); p.drain(); sx_assert(p.bus->nout == i + 1, "the message is sent"); flash(p, true); }
}
// also while other things are going on
CASE(C40_busy)
{
  Panel p(sx_fork(sx_bool("setup")) ? MODE_SETUP : MODE_NORMAL, sx_fork(sx_bool("first"))); int a = sx_fork(sx_range("before", 0, 2)), b = sx_fork(sx_range("after", 0, 2)); bool sent = sx_fork(sx_bool("sent")); sx_assert(!green(), "dark when idle");
  VlcbMessage v; v.len = 3; for (int k = 0; k < 3; k++) v.data[k] = k ? sx_u8("d") : (byte)OPC_WRACK; CANFrame f = symCanFrame(); f.ext = f.rtr = false; f.len = 5; f.data[0] = OPC_ACON; sx_assume((f.id <= 0x7ff) & ((f.id & 0x7f) != p.conf->CANID));
  for (int i = 0; i < a; i++) p.ctl->indicateMode((VlcbModeParams)p.mode_()); if (sent) p.ctl->sendMessage(&v); else p.bus->put(f); for (int i = 0; i < b; i++) p.ctl->indicateMode((VlcbModeParams)p.mode_());
  p.poll(); flash(p, true);
}
// an indication that ends while the mode lights the LED does not put it out
CASE(C40_uninitialised)
{
  Panel p(MODE_UNINITIALISED, sx_fork(sx_bool("first"))); VlcbMessage v; v.len = 3; v.data[0] = OPC_WRACK; v.data[1] = v.data[2] = 0; sx_assert(green(), "lit in uninitialised mode");
  p.ctl->sendMessage(&v); p.drain(); sx_assert(green(), "still lit"); env::now += sx_u16("dt"); p.poll(); sx_assert(green(), "still lit afterwards");
}
