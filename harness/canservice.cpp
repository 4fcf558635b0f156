// CAN service: C05 incoming frames, C06 outgoing messages, C07 self-enumeration, C08 set CAN id.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source CanService.cpp
#include "node.h"
#include "CanService.h"
#include "bus.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }

struct CanNode : Node
{
  Bus *bus; CanService *can; unsigned nn; byte id;
  CanNode() : Node(10) { geometry(0, 0, 0); bus = MAKE(Bus); can = MAKE(CanService, bus); }
  void go() { regularSettings(mem, MODE_NORMAL); start(MAKE(Controller, conf, {can, rec})); nn = conf->nodeNum; id = conf->CANID; }
};
static bool isStd(const CANFrame &f, byte canid, bool rtr, int len) { return (f.id == ((0xBu << 7) | (canid & 0x7f))) & !f.ext & (f.rtr == rtr) & (f.len == len); }

// --- C05 ---------------------------------------------------------------------------------------
static void incoming(bool enumerating, int frames)
{
  sx_need("delivered"); sx_need("remote frame"); sx_need("extended frame");
  if (enumerating) sx_need("enumeration response");
  CanNode *n = new CanNode(); n->go();
  if (enumerating) { n->ctl->putAction(ACT_START_CAN_ENUMERATION); n->drain(); n->bus->nout = 0; }
  byte id0 = n->id;
  int expectIn = 0, expectOut = 0; Msg want[4];
  for (int k = 0; k < frames; k++)
  {
    CANFrame f = symCanFrame();
    if (!enumerating) sx_assume((f.id & 0x7f) != id0 || f.len == 0 || f.ext || f.rtr);   // the conflict case is C07's
    else if (frames > 1) sx_assume((f.id & 0x7f) != id0);
    if (frames > 1) sx_assume(f.data[0] != OPC_CANID && f.data[0] != OPC_ENUM);   // C07, C08
    f.ext = sx_fork(f.ext); f.rtr = sx_fork(f.rtr); f.len = sx_fork(f.len);
    int before = n->bus->nout, inb = n->rec->nin, outb = n->rec->n;
    n->bus->put(f); n->poll();
    sx_assert(n->bus->inPos == n->bus->nin, "the frame is taken from the transport");
    if (f.ext)
    {
      sx_cover("extended frame");
      sx_assert(n->bus->nout == before && n->rec->nin == inb && n->rec->n == outb, "an extended frame has no effect");
    }
    else if (f.rtr)
    {
      sx_cover("remote frame");
      sx_assert(n->bus->nout == before + 1 && isStd(n->bus->out[before], id0, false, 0), "a remote frame is answered by one empty frame with the module's id");
      sx_assert(n->rec->nin == inb && n->rec->n == outb, "a remote frame is not delivered");
    }
    else if (enumerating && f.len == 0)
    {
      sx_cover("enumeration response");
      sx_assert(n->rec->nin == inb && n->rec->n == outb && n->bus->nout == before, "an enumeration response is not delivered");
    }
    else
    {
      sx_cover("delivered");
      sx_assert(n->rec->nin == inb + 1, "a data frame is delivered exactly once");
      Msg &m = n->rec->in[inb]; bool ok = m.len == f.len; for (int i = 0; i < f.len; i++) ok = ok & (m.d[i] == f.data[i]);
      sx_assert(ok, "the delivered message has the frame's length and bytes");
    }
    if (frames > 1) sx_assert(n->conf->CANID == id0, "the CAN id stays");
  }
}
CASE(C05_one_frame) { incoming(false, 1); }
CASE(C05_one_frame_enumerating) { incoming(true, 1); }
// @case cost=20
CASE(C05_two_frames) { incoming(false, 2); }
// @case cost=20
CASE(C05_two_frames_enumerating) { incoming(true, 2); }
// several frames waiting in the transport before the first poll
CASE(C05_burst)
{
  CanNode *n = new CanNode(); n->go();
  CANFrame f[4];
  for (int k = 0; k < 4; k++) { f[k] = symCanFrame(); f[k].ext = false; f[k].rtr = false; f[k].len = k + 3; sx_assume((f[k].id & 0x7f) != n->id); n->bus->put(f[k]); }
  for (int k = 0; k < 4; k++) n->ctl->process();
  n->drain();
  sx_assert(n->rec->nin == 4, "every frame of a burst is delivered once");
  for (int k = 0; k < 4; k++) { bool ok = n->rec->in[k].len == f[k].len; for (int i = 0; i < f[k].len; i++) ok = ok & (n->rec->in[k].d[i] == f[k].data[i]); sx_assert(ok, "in order and unaltered"); }
}

// what arrives is a mixture and waits together; each frame has its effect, in order
static void waiting(bool enumerating, int frames)
{
  sx_need("an answer before a message");
  CanNode *n = new CanNode(); n->go(); byte id0 = n->id; if (enumerating) { n->ctl->putAction(ACT_START_CAN_ENUMERATION); n->drain(); } int before = n->bus->nout;
  CANFrame f[4]; bool taken[128]; for (int i = 0; i < 128; i++) taken[i] = false;
  for (int k = 0; k < frames; k++)
  {
    f[k] = symCanFrame(); int kind = sx_fork(sx_range("kind", 0, 3)); f[k].ext = kind == 2; f[k].rtr = kind == 1; f[k].len = kind == 3 ? 0 : 3; sx_assume(kind == 2 || (f[k].id & 0x7f) != id0); f[k].data[0] = 0x90; n->bus->put(f[k]);
    if (kind == 3 && enumerating) for (int q = 1; q < 128; q++) taken[q] = taken[q] | (q == (int)(f[k].id & 0x7f));
    if (k && f[k - 1].len == 0 && kind == 0) sx_cover("an answer before a message");
  }
  for (int k = 0; k < frames; k++) n->ctl->process(); n->drain(); int in = 0, out = 0; sx_assert(n->bus->inPos == n->bus->nin, "every frame is taken from the transport");
  for (int k = 0; k < frames; k++)
  {
    if (f[k].ext || (f[k].len == 0 && enumerating && !f[k].rtr)) continue;
    if (f[k].rtr) { sx_assert(n->bus->nout > before + out && isStd(n->bus->out[before + out], id0, false, 0), "each remote frame is answered"); out++; continue; }
    Msg &m = n->rec->in[in]; sx_assert(n->rec->nin > in && m.len == f[k].len, "each data frame is delivered"); bool ok = true; for (int i = 0; i < f[k].len; i++) ok = ok & (m.d[i] == f[k].data[i]); sx_assert(ok, "in order and unaltered"); in++;
  }
  sx_assert(n->rec->nin == in && n->bus->nout == before + out, "nothing else is delivered or sent");
  if (enumerating) { env::now += 100; n->poll(); int want = 0; for (int q = 127; q >= 1; q--) want = taken[q] ? want : q; sx_assert(n->conf->CANID == want, "each answer counts"); }
}
CASE(C05_waiting) { waiting(false, 3); }
CASE(C05_waiting_enumerating) { waiting(true, 3); }

// --- C06 ---------------------------------------------------------------------------------------
struct Queued { VlcbMessage m; };
static void send(CanNode *n, VlcbMessage *log, int &k, int len)
{
  VlcbMessage m; m.len = len; for (int i = 0; i < 8; i++) m.data[i] = sx_u8("d");
  log[k++] = m;
  sx_assert(n->ctl->sendMessage(&m), "sending reports success");
}
static void checkSent(CanNode *n, const VlcbMessage *log, int k, byte id)
{
  sx_assert(n->bus->nout == k, "as many frames as messages");
  for (int i = 0; i < k; i++)
  {
    CANFrame &f = n->bus->out[i];
    sx_assert(isStd(f, id, false, log[i].len), "a standard data frame with the module's id and the message's length");
    bool ok = true; for (int j = 0; j < log[i].len; j++) ok = ok & (f.data[j] == log[i].data[j]);
    sx_assert(ok, "the message's bytes, in sending order");
  }
}
CASE(C06_lengths)
{
  CanNode *n = new CanNode(); n->go(); VlcbMessage log[4]; int k = 0;
  for (int i = 0; i < 2; i++) send(n, log, k, sx_fork(sx_range("len", 0, 8)));
  n->drain(); checkSent(n, log, k, n->id);
}
// @case cost=15
CASE(C06_pending)
{
  CanNode *n = new CanNode(); n->go(); VlcbMessage log[40]; int k = 0;
  int count = sx_fork(sx_range("count", 1, 30));
  for (int i = 0; i < count; i++) send(n, log, k, i % 9);
  n->drain(); checkSent(n, log, k, n->id);
}
// messages sent while others are still waiting, at any point
// @case cost=30
CASE(C06_interleaved)
{
  CanNode *n = new CanNode(); n->go(); VlcbMessage log[60]; int k = 0;
  int a = sx_fork(sx_range("first", 0, 12)), p = sx_fork(sx_range("polls", 0, 10)), b = sx_fork(sx_range("second", 0, 12));
  for (int i = 0; i < a; i++) send(n, log, k, 8);
  for (int i = 0; i < p; i++) n->ctl->process();
  for (int i = 0; i < b; i++) send(n, log, k, 5);
  n->drain(); checkSent(n, log, k, n->id);
}
// the module's id changes between messages, by any of the ways there are
static void idChanges(int steps)
{
  CanNode *n = new CanNode(); env::now = sx_u64("t0"); n->go(); sx_assume(n->id < 128); VlcbMessage log[8]; unsigned nn = n->nn;
  for (int s = 0; s < steps; s++)
    switch (sx_fork(sx_range("op", 0, 4)))
    {
      case 0: { int k = 0; n->bus->nout = 0; send(n, log, k, 3 + s % 6); n->drain(); checkSent(n, log, k, n->conf->CANID); break; }
      case 1: { byte v = sx_u8("id"); sx_assume(v >= 1 && v <= 99); n->receive(M(OPC_CANID, hi(nn), lo(nn), v)); sx_assert(n->conf->CANID == v, "the id is set"); break; }
      case 2: n->ctl->putAction(ACT_START_CAN_ENUMERATION); n->drain(); break;
      case 3: { CANFrame f; memset(&f, 0, sizeof f); f.id = 0x580 | sx_range("id", 1, 127); n->bus->put(f); n->poll(); break; }
      case 4: env::now += 101; n->poll(); break;
    }
  int k = 0; n->bus->nout = 0; send(n, log, k, 5); n->drain(); checkSent(n, log, k, n->conf->CANID);
}
// @case cost=30
CASE(C06_id_changes) { idChanges(4); }
// helper forms of sending
CASE(C06_with_node_number)
{
  CanNode *n = new CanNode(); n->go(); unsigned nn = n->nn;
  byte b[5]; for (int i = 0; i < 5; i++) b[i] = sx_u8("b"); byte opc = sx_u8("opc"); VlcbOpCodes o = (VlcbOpCodes)opc;
  n->ctl->sendMessageWithNN(o); n->ctl->sendMessageWithNN(o, b[0]); n->ctl->sendMessageWithNN(o, b[0], b[1]); n->ctl->sendMessageWithNN(o, b[0], b[1], b[2]);
  n->ctl->sendMessageWithNN(o, b[0], b[1], b[2], b[3]); n->ctl->sendMessageWithNN(o, b[0], b[1], b[2], b[3], b[4]);
  n->drain(); sx_assert(n->bus->nout == 6, "six messages");
  for (int i = 0; i < 6; i++)
  {
    CANFrame &f = n->bus->out[i]; bool ok = isStd(f, n->id, false, 3 + i) & (f.data[0] == opc) & (f.data[1] == hi(nn)) & (f.data[2] == lo(nn));
    for (int j = 0; j < i; j++) ok = ok & (f.data[3 + j] == b[j]);
    sx_assert(ok, "op-code, node number and arguments in order");
  }
}

// --- C07 ---------------------------------------------------------------------------------------
enum Start { BY_ACTION, BY_MESSAGE, BY_CONFLICT };
static void begin(CanNode *n, int how)
{
  unsigned nn = n->nn; int before = n->bus->nout;
  if (how == BY_ACTION) { n->ctl->putAction(ACT_START_CAN_ENUMERATION); n->drain(); }
  else if (how == BY_MESSAGE) n->receive(M(OPC_ENUM, hi(nn), lo(nn)));
  else
  {
    CANFrame f = symCanFrame(); f.ext = f.rtr = false; sx_assume((f.id & 0x7f) == n->id); sx_assume(n->id < 128); f.len = 3; f.data[0] = 0x90;
    n->bus->put(f); n->poll();
  }
  sx_assert(n->bus->nout == before + 1 && isStd(n->bus->out[before], n->id, true, 0), "an enumeration sends exactly one remote frame");
}
static void responses(int how, int k)
{
  sx_need("id 1"); sx_need("id above 1");
  CanNode *n = new CanNode(); env::now = sx_u64("t0"); n->go();
  sx_assume(n->id < 128);
  unsigned nn = n->nn; unsigned long t0 = env::now; byte id0 = n->id;
  begin(n, how); int frames = n->bus->nout; n->rec->clear();
  bool taken[128]; for (int i = 0; i < 128; i++) taken[i] = false;
  unsigned last = 0;
  for (int i = 0; i < k; i++)
  {
    unsigned dt = sx_range("dt", 0, 99); sx_assume(dt >= last); last = dt;
    env::now = t0 + dt;
    CANFrame f; memset(&f, 0, sizeof f); f.id = sx_u16("id"); sx_assume(f.id <= 0x7ff);
    n->bus->put(f); n->poll();
    for (int q = 1; q < 128; q++) taken[q] = taken[q] | (q == (int)(f.id & 0x7f));
    sx_assert(n->conf->CANID == id0 && n->mem->m[LOCATION_CANID] == id0, "the id is unchanged while collecting");
    sx_assert(n->bus->nout == frames, "nothing else is sent while collecting");
  }
  unsigned long wait = sx_u64("wait"); sx_assume(wait >= 100); env::now = t0 + wait;
  n->poll();
  int want = 0; for (int q = 127; q >= 1; q--) want = taken[q] ? want : q;
  if (want == 1) sx_cover("id 1"); else sx_cover("id above 1");
  sx_assert(n->conf->CANID == want, "the lowest free id is selected");
  sx_assert(n->mem->m[LOCATION_CANID] == want, "the id is stored persistently");
  if (how == BY_MESSAGE) { sx_assert(only(*n->rec, M(OPC_NNACK, hi(nn), lo(nn))), "a requested enumeration is acknowledged"); sx_assert(n->bus->nout == frames + 1 && isStd(n->bus->out[frames], want, false, 3), "the acknowledgement carries the new id"); }
  else sx_assert(n->rec->n == 0 && n->bus->nout == frames, "an unrequested enumeration is not acknowledged");
  // finished: nothing more happens, and the next enumeration starts afresh
  env::now += sx_u16("later"); n->poll();
  sx_assert(n->conf->CANID == want && n->rec->n == (how == BY_MESSAGE), "the enumeration ends once");
}
CASE(C07_action_2) { responses(BY_ACTION, 2); }
CASE(C07_message_2) { responses(BY_MESSAGE, 2); }
CASE(C07_conflict_2) { responses(BY_CONFLICT, 2); }
// any set of responders
static void anySet(int how)
{
  sx_need("all taken"); sx_need("last free");
  CanNode *n = new CanNode(); env::now = 7; n->go(); sx_assume(n->id < 128);
  if (how != BY_CONFLICT) begin(n, how); else begin(n, how);
  env::now += 50;
  bool taken[128];
  for (int i = 1; i < 128; i++)
  {
    taken[i] = sx_bool("answers");
    CANFrame f; memset(&f, 0, sizeof f); f.id = 0x580 | (taken[i] ? i : 0);
    n->bus->nin = n->bus->inPos = 0; n->bus->put(f); n->ctl->process();
  }
  n->drain();
  env::now += 50; n->poll();
  int want = 1; bool found = false;
  for (int q = 127; q >= 1; q--) { want = taken[q] ? want : q; found = found | !taken[q]; }
  if (!found) sx_cover("all taken"); 
  if (want == 127) sx_cover("last free");
  sx_assert(!found || n->conf->CANID == want, "the lowest free id is selected");
  sx_assert(found || n->conf->CANID >= 1, "some id is selected when all are taken");
  sx_assert(n->mem->m[LOCATION_CANID] == n->conf->CANID, "the id is stored persistently");
}
// @case cost=60
CASE(C07_any_set) { anySet(BY_ACTION); }
// the end is not reached before 100 ms, whatever the polling
CASE(C07_early_polls)
{
  CanNode *n = new CanNode(); env::now = sx_u64("t0"); n->go(); byte id0 = n->id; unsigned long t0 = env::now;
  begin(n, BY_ACTION);
  for (int i = 0; i < 3; i++) { env::now = t0 + sx_range("dt", 0, 99); n->poll(); sx_assert(n->conf->CANID == id0, "not before 100 ms"); }
  env::now = t0 + 100; n->poll();
  sx_assert(n->conf->CANID == 1, "id 1 when nobody answers");
}
// a request while one is running does not restart it
CASE(C07_restart)
{
  CanNode *n = new CanNode(); env::now = sx_u64("t0"); n->go(); sx_assume(n->id < 128); unsigned long t0 = env::now;
  begin(n, BY_ACTION); int frames = n->bus->nout;
  CANFrame f; memset(&f, 0, sizeof f); f.id = 1; n->bus->put(f); n->poll();
  env::now = t0 + sx_range("dt", 0, 99); n->ctl->putAction(ACT_START_CAN_ENUMERATION); n->drain();
  sx_assert(n->bus->nout == frames, "no second remote frame");
  env::now = t0 + 100; n->poll();
  sx_assert(n->conf->CANID == 2, "the responses so far count");
  // a second enumeration forgets the first one's responses
  n->id = 2; begin(n, BY_CONFLICT);
  env::now += 100; n->poll();
  sx_assert(n->conf->CANID == 1, "each enumeration starts afresh");
}
// two enumerations, each started in any of the three ways
CASE(C07_history)
{
  CanNode *n = new CanNode(); env::now = sx_u64("t0"); n->go(); sx_assume(n->id < 128); unsigned nn = n->nn;
  for (int i = 0; i < 2; i++)
  {
    int how = sx_fork(sx_range("how", 0, 2)), want = 1; n->id = n->conf->CANID; n->rec->clear();
    begin(n, how); n->rec->clear(); int frames = n->bus->nout;
    CANFrame f; memset(&f, 0, sizeof f); f.id = 0x580 | (sx_u8("id") & 0x7f); n->bus->put(f); n->poll(); if ((f.id & 0x7f) == 1) want = 2;
    env::now += 100; n->poll();
    sx_assert(n->conf->CANID == want && n->mem->m[LOCATION_CANID] == want, "the lowest id free in this enumeration is selected");
    if (how == BY_MESSAGE) sx_assert(only(*n->rec, M(OPC_NNACK, hi(nn), lo(nn))) && n->bus->nout == frames + 1, "the requested enumeration is acknowledged");
    else sx_assert(n->rec->n == 0 && n->bus->nout == frames, "the unrequested enumeration is not acknowledged");
    env::now += sx_u32("pause");
  }
}
// which frames start an enumeration
CASE(C07_trigger)
{
  sx_need("triggers"); sx_need("does not");
  CanNode *n = new CanNode(); n->go(); sx_assume(n->id < 128);
  CANFrame f = symCanFrame(); f.len = sx_fork(f.len); f.ext = sx_fork(f.ext); f.rtr = sx_fork(f.rtr);
  f.data[0] = 0x90;                     // an event: no service of this node sends anything
  n->bus->put(f); n->poll();
  bool trig = !f.ext && !f.rtr && f.len > 0 && (f.id & 0x7f) == n->id;
  int rtrs = 0; for (int i = 0; i < n->bus->nout; i++) rtrs += n->bus->out[i].rtr;
  if (trig) sx_cover("triggers"); else sx_cover("does not");
  sx_assert(rtrs == (trig ? 1 : 0), "an enumeration starts exactly for a non-empty standard data frame with the module's own id");
}
CASE(C07_other_node)
{
  CanNode *n = new CanNode(); n->go(); Msg m = symMsg(3); m.d[0] = OPC_ENUM; sx_assume(m.d[1] * 256u + m.d[2] != n->nn);
  n->receive(m); sx_assert(n->bus->nout == 0, "an enumeration request for another node is ignored");
}

// --- C08 ---------------------------------------------------------------------------------------
static void setId(int steps)
{
  sx_need("accepted"); sx_need("refused"); sx_need("other node"); sx_need("during an enumeration");
  CanNode *n = new CanNode(); env::now = sx_u64("t0"); n->go(); unsigned nn = n->nn;
  if (sx_fork(sx_bool("enumerating"))) { sx_cover("during an enumeration"); n->ctl->putAction(ACT_START_CAN_ENUMERATION); n->drain(); env::now += sx_range("dt", 0, 49); }
  for (int s = 0; s < steps; s++)
  {
    n->rec->clear(); n->bus->nout = 0; byte was = n->conf->CANID;
    byte old[10]; for (int i = 0; i < 10; i++) old[i] = n->mem->m[i];
    int len = sx_fork(sx_range("len", s ? 4 : 3, s ? 4 : 8)); Msg m = symMsg(len); m.d[0] = OPC_CANID;
    n->receive(m);
    bool mine = m.d[1] * 256u + m.d[2] == nn; byte id = m.d[3];
    bool ok = mine && id >= 1 && id <= 99;
    bool eq = true; for (int i = 0; i < 10; i++) eq = eq & (n->mem->m[i] == (ok && i == LOCATION_CANID ? id : old[i]));
    sx_assert(eq, "only an accepted command changes the stored id, and nothing else");
    sx_assert(n->conf->CANID == (ok ? id : was), "the id in use");
    sx_assert(n->conf->nodeNum == nn, "the node number stays");
    if (!mine) { sx_cover("other node"); sx_assert(n->rec->n == 0, "no answer for another node"); }
    else if (ok) { sx_cover("accepted"); sx_assert(both(*n->rec, WRACKM, GRSPM(OPC_CANID, SERVICE_ID_CAN, GRSP_OK)), "acknowledged"); }
    else { sx_cover("refused"); sx_assert(both(*n->rec, CMDERRM(CMDERR_INV_EN_IDX), GRSPM(OPC_CANID, SERVICE_ID_CAN, CMDERR_INV_EN_IDX)), "refused with error responses"); }
    // the answers go out under the id now in use
    for (int i = 0; i < n->bus->nout; i++) sx_assert(isStd(n->bus->out[i], n->conf->CANID, false, n->rec->out[i].len), "answers carry the current id");
  }
}
CASE(C08_set) { setId(1); }
// @case cost=20
CASE(C08_set_twice) { setId(2); }
