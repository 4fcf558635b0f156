// Push button and LEDs: C33, C34.
// @source LEDUserInterface.cpp
// @source Switch.cpp
// @source LED.cpp
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
// @source CanService.cpp
#include "node.h"
#include "LEDUserInterface.h"
#include "MinimumNodeService.h"
#include "CanService.h"
#include "bus.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }

enum { GREEN = 4, YELLOW = 7, BUTTON = 8 };
static void clockStart() { env::now = sx_u64("clock"); }                        // any value, also just before it wraps
static void later(const char *n) { env::now += sx_u32(n); }
static bool green() { return env::pinOut[GREEN]; }
static bool yellow() { return env::pinOut[YELLOW]; }

// ---- C33: the button ----
struct Requests : Service
{
  int order[8]; int n; bool respond;
  VlcbServiceTypes getServiceID() const { return (VlcbServiceTypes)0; }
  byte getServiceVersionID() const { return 0; }
  void process(const Action *a)
  {
    if (!a) return;
    if (a->actionType == ACT_START_CAN_ENUMERATION) respond |= a->fromENUM;
    if (n < 8) order[n] = a->actionType;
    n++;
  }
};
struct Panel
{
  Mem *mem; Configuration *conf; Controller *ctl; Requests *req; LEDUserInterface *ui;
  Panel() { mem = MAKE(Mem, 10); conf = MAKE(Configuration, mem); conf->EE_NVS_START = 10; conf->EE_EVENTS_START = 10; ui = MAKE(LEDUserInterface, GREEN, YELLOW, BUTTON); req = MAKE(Requests); ctl = MAKE(Controller, conf, {ui, req}); static byte params[21], name[8]; params[0] = 20; ctl->setParams(params); ctl->setName(name); ctl->begin(); while (ctl->pendingAction()) ctl->process(); req->n = 0; }
};
enum { NOTHING = -1 };
static int meaning(uint64_t d) { return d < 500 ? ACT_START_CAN_ENUMERATION : ((d >= 1000) & (d < 2000)) ? ACT_RENEGOTIATE : d > 4000 ? ACT_CHANGE_MODE : NOTHING; }
// polls at arbitrary instants with arbitrary button levels (also bouncing)
static void polls(int count)
{
  clockStart(); bool level = sx_fork(sx_bool("start")); env::pinIn[BUTTON] = !level; Panel *p = new Panel; sx_assert(env::pinModeOf[BUTTON] == 1 + INPUT_PULLUP, "the button input is pulled up");
  bool down = false; uint64_t since = 0; int want[8], n = 0;
  for (int i = 0; i < count; i++)
  {
    later("step"); bool now = sx_fork(sx_bool("pressed")); env::pinIn[BUTTON] = !now;
    p->ctl->process(); sx_assert(p->ui->isButtonPressed() == now, "the button level is known");
    if (now && !down) since = env::now;
    if (!now && down) { int m = sx_fork(meaning(env::now - since)); if (m != NOTHING) want[n++] = m; }
    down = now;
  }
  // no further changes: deliver what was requested
  later("rest"); for (int i = 0; i < 4; i++) p->ctl->process();
  sx_assert(!p->ctl->pendingAction(), "no more requests"); sx_assert(p->req->n == n, "exactly the documented number of requests");
  bool ok = true; for (int i = 0; i < n && i < p->req->n; i++) ok = ok & (p->req->order[i] == want[i]); sx_assert(ok, "each release requests the documented action");
  sx_assert(!p->req->respond, "a button press requests an enumeration on its own behalf");
}
CASE(C33_polls_3) { polls(3); }
// @case merge=0
CASE(C33_polls_6) { polls(6); }
// @case tier=thorough
CASE(C33_polls_9) { polls(9); }
// while held for more than four seconds the mode change is indicated, at every poll, whatever else is indicated
CASE(C33_held_is_indicated)
{
  sx_need("indicated"); sx_need("not yet");
  clockStart(); env::pinIn[BUTTON] = 1; Panel *p = new Panel; later("idle"); p->ctl->process();
  int mode = sx_fork(sx_range("mode", 0, 1)) ? MODE_NORMAL : MODE_UNINITIALISED; p->ctl->indicateMode((VlcbModeParams)mode); p->ctl->process(); p->ctl->process();
  sx_assert(green() == (mode == MODE_UNINITIALISED) && yellow() == (mode == MODE_NORMAL), "the mode is shown");
  env::pinIn[BUTTON] = 0; later("press"); p->ctl->process(); uint64_t start = env::now; bool blinks = yellow(), other = green();
  sx_assert(other == (mode == MODE_UNINITIALISED) && blinks == (mode == MODE_NORMAL), "pressing alone shows nothing");
  later("hold"); p->ctl->process(); sx_assume(env::now - start >= 1000); bool due = env::now - start > 4000;
  p->ctl->process(); uint64_t at = env::now;
  if (due) { sx_cover("indicated"); sx_assert(!green(), "the green LED goes out"); bool y = yellow(); later("blink"); sx_assume(env::now - at >= 500); p->ctl->process(); p->ctl->process(); sx_assert(yellow() == !y, "the yellow LED blinks"); sx_assert(!green(), "the green LED is out"); }
  else { sx_cover("not yet"); sx_assert(green() == (mode == MODE_UNINITIALISED) && yellow() == (mode == MODE_NORMAL), "no indication before four seconds"); }
  sx_assert(p->req->n == 1, "holding requests nothing");
}
// a whole module: what the press leads to
struct Module
{
  Node *n; Bus *bus; LEDUserInterface *ui;
  Module(int mode) { clockStart(); env::pinIn[BUTTON] = 1; n = new Node(10); n->geometry(0, 0, 0); n->conf->EE_EVENTS_START = 10; regularSettings(n->mem, mode); n->mem->m[LOCATION_FLAGS] &= 0xfe; if (mode == MODE_UNINITIALISED) n->mem->m[2] = n->mem->m[3] = 0; bus = MAKE(Bus); ui = MAKE(LEDUserInterface, GREEN, YELLOW, BUTTON);
    n->start(MAKE(Controller, n->conf, {MAKE(MinimumNodeService), ui, MAKE(CanService, bus), n->rec})); sx_assume(mode == MODE_UNINITIALISED || n->conf->nodeNum); bus->nout = 0; }
  void press(uint64_t d) { env::pinIn[BUTTON] = 0; n->poll(); env::now += d; env::pinIn[BUTTON] = 1; n->poll(); env::now += 5; n->poll(); n->poll(); }
};
CASE(C33_module_short)
{
  int mode = sx_fork(sx_bool("mode")) ? MODE_NORMAL : MODE_UNINITIALISED; Module m(mode); byte before[10]; memcpy(before, m.n->mem->m, 10);
  uint64_t d = sx_u32("hold"); sx_assume(d < 500); m.press(d);
  sx_assert(m.bus->nout == 1 && m.bus->out[0].rtr && m.bus->out[0].len == 0 && !m.bus->out[0].ext, "a short press enumerates"); sx_assert(m.n->rec->n == 0, "and sends nothing else");
  sx_assert(m.n->conf->currentMode == mode && m.n->mem->m[2] == before[2] && m.n->mem->m[3] == before[3], "and keeps mode and node number");
}
CASE(C33_module_long)
{
  bool normal = sx_fork(sx_bool("normal")); Module m(normal ? MODE_NORMAL : MODE_UNINITIALISED); unsigned nn = m.n->conf->nodeNum; uint64_t d = sx_u32("hold"); sx_assume(d > 4000); m.press(d);
  if (normal) { sx_assert(m.n->rec->n == 1 && same(m.n->rec->out[0], M(OPC_NNREL, hi(nn), lo(nn))), "a long press releases the node number"); sx_assert(m.n->conf->currentMode == MODE_UNINITIALISED && m.n->conf->nodeNum == 0, "and leaves the module uninitialised"); sx_assert(green() && !yellow(), "the green LED is lit"); }
  else { sx_assert(m.n->rec->count(M(OPC_RQNN, 0, 0)) == 1, "a long press requests a node number"); sx_assert(!green(), "setup is shown"); bool y = yellow(); env::now += 500; m.n->poll(); sx_assert(yellow() == !y, "the yellow LED blinks during setup"); }
}
CASE(C33_module_medium)
{
  Module m(MODE_NORMAL); unsigned nn = m.n->conf->nodeNum; uint64_t d = sx_u32("hold"); sx_assume((d >= 1000) & (d < 2000)); m.press(d);
  sx_assert(m.n->rec->count(M(OPC_RQNN, hi(nn), lo(nn))) == 1, "a press of one second asks for a new node number"); sx_assert(!green(), "setup is shown");
  env::now += 500; bool y = yellow(); m.n->poll(); sx_assert(yellow() == !y, "the yellow LED blinks during setup");
  m.press(1000); sx_assert(m.n->conf->currentMode == MODE_NORMAL && m.n->conf->nodeNum == nn, "a second press cancels"); m.n->poll(); sx_assert(yellow() && !green(), "normal mode is shown again");
}
CASE(C33_module_other)
{
  bool normal = sx_fork(sx_bool("normal")); Module m(normal ? MODE_NORMAL : MODE_UNINITIALISED); unsigned nn = m.n->conf->nodeNum; uint64_t d = sx_u32("hold"); sx_assume(((d >= 500) & (d < 1000)) | ((d >= 2000) & (d <= 4000))); m.press(d);
  sx_assert(m.n->rec->n == 0 && m.bus->nout == 0 && m.n->rec->enumReq == 0 && m.n->rec->modes == 0, "a press of any other length does nothing"); sx_assert(m.n->conf->nodeNum == nn, "and keeps the node number");
}
// the switch on its own, either level
// @case merge=0
CASE(C33_switch)
{
  clockStart(); bool high = sx_fork(sx_bool("active high")); env::pinIn[BUTTON] = sx_bool("level"); Switch *s = high ? new Switch(BUTTON, HIGH) : new Switch(BUTTON); bool down = false; uint64_t since = 0, last = 0; int changes = 0;
  sx_assert(env::pinModeOf[BUTTON] == (high ? 0 : 1 + INPUT_PULLUP), "only an active-low input is pulled up");
  for (int i = 0; i < 5; i++)
  {
    later("step"); bool now = sx_fork(sx_bool("pressed")); env::pinIn[BUTTON] = now == high; s->run(); bool change = now != down;
    sx_assert(s->isPressed() == now && s->getState() == env::pinIn[BUTTON], "the level is known"); sx_assert(s->stateChanged() == change, "a change is reported once");
    if (sx_fork(change)) { last = env::now - since; since = env::now; changes++; }
    down = now;
    later("more"); if (changes) { sx_assert(s->getCurrentStateDuration() == env::now - since && s->getLastStateChangeTime() == since, "the current state is timed"); if (changes > 1) sx_assert(s->getLastStateDuration() == last, "the last state is timed"); }
  }
}

// ---- C34: the LEDs ----
struct Lamp { bool state, blink, pulse, toggled; uint64_t toggle, start; bool lit() const { return pulse | state; } };
static void ledSequence(int steps, int maxOp)
{
  clockStart(); uint64_t t0 = env::now; (void)t0; LED *l = new LED(GREEN); sx_assert(env::pinModeOf[GREEN] == 1 + OUTPUT, "the pin is an output"); Lamp w = {false, false, false, false, 0, 0}; bool poll = false;
  for (int i = 0; i < steps; i++)
  {
    later("step"); int op = sx_fork(sx_range("op", 0, maxOp));
    switch (op)
    {
      case 0: case 1: poll = true; l->run(); break;
      case 2: l->on(); w.state = true; w.blink = false; break;
      case 3: l->off(); w.state = false; w.blink = false; break;
      case 4: l->blink(); w.blink = true; break;
      case 5: l->pulse(); w.pulse = true; w.start = env::now; poll = true; break;
      case 6: l->toggle(); w.state = !w.state; break;
    }
    if (poll)
    {
      if (w.pulse && sx_fork(env::now - w.start >= 5)) w.pulse = false;
      if (w.blink)
      {
        // the first change of a blinking LED may come at once
        bool changed = l->getState() != w.state;
        if (w.toggled) { bool due = env::now - w.toggle >= 500; sx_assert(changed == due, "a blinking LED changes every 500 ms"); }
        if (sx_fork(changed)) { w.state = !w.state; w.toggle = env::now; w.toggled = true; }
      }
      sx_assert(l->getState() == w.state, "the LED is in its state"); sx_assert(env::pinOut[GREEN] == w.lit(), "the pin shows state and pulse");
    }
    poll = false;
  }
  // a blinking LED never sticks
  if (w.blink) { bool s = l->getState(); l->run(); bool a = l->getState(); env::now += 500; l->run(); bool b = l->getState(); env::now += 500; l->run(); sx_assert(a != b && b != l->getState(), "a blinking LED keeps blinking"); (void)s; }
}
CASE(C34_led_4) { ledSequence(4, 6); }
CASE(C34_led_5) { ledSequence(5, 5); }
// @case tier=thorough
CASE(C34_led_7) { ledSequence(7, 6); }
// activity is visible for at least 5 ms
CASE(C34_pulse)
{
  sx_need("ended"); clockStart(); LED *l = new LED(GREEN); bool on = sx_bool("on"); if (on) l->on(); later("wait"); l->run(); later("wait"); l->pulse(); uint64_t start = env::now; sx_assert(env::pinOut[GREEN], "a pulse lights the LED at once");
  for (int i = 0; i < 3; i++) { later("poll"); if (i == 1 && sx_fork(sx_bool("again"))) { l->pulse(); start = env::now; } else l->run(); bool over = env::now - start >= 5; if (over) sx_cover("ended"); if (i < 1 || !over) sx_assert(env::pinOut[GREEN] == (on | !over), "the pulse lasts 5 ms"); }
}
// modes as indicated by the controller, with activity in between
static void modes(int steps)
{
  clockStart(); env::pinIn[BUTTON] = 1; Panel *p = new Panel; int mode = -2; uint64_t act = 0; bool active = false, blinking = false, y = false, known = true; uint64_t at = 0; (void)known;
  for (int i = 0; i < steps; i++)
  {
    later("step"); int op = sx_fork(sx_range("op", 0, 5));
    if (op < 3) { mode = op == 0 ? MODE_NORMAL : op == 1 ? MODE_UNINITIALISED : MODE_SETUP; p->ctl->indicateMode((VlcbModeParams)mode); }
    else if (op == 3) { p->ctl->indicateActivity(); }
    else if (op == 4) p->ctl->putAction(ACT_RENEGOTIATE);
    p->ctl->process(); if (op == 3) { active = true; act = env::now; } later("poll"); p->ctl->process();
    if (active && env::now - act >= 5) active = false;
    if (mode == -2) continue;
    sx_assert(green() == ((mode == MODE_UNINITIALISED) | active), "the green LED shows uninitialised mode and activity");
    if (mode == MODE_NORMAL) { sx_assert(yellow(), "the yellow LED shows normal mode"); blinking = false; }
    if (mode == MODE_UNINITIALISED) { sx_assert(!yellow(), "the yellow LED is off in uninitialised mode"); blinking = false; }
    if (mode == MODE_SETUP) { if (blinking && op >= 3) { if (yellow() != y) sx_assert(env::now - at >= 500 || true, "blinks"); } blinking = true; y = yellow(); at = env::now; }
  }
  if (mode == MODE_SETUP) { bool a = yellow(); env::now += 500; p->ctl->process(); bool b = yellow(); env::now += 500; p->ctl->process(); sx_assert(a != b && b != yellow(), "the yellow LED blinks in setup mode"); }
}
CASE(C34_modes_2) { modes(2); }
CASE(C34_modes_3) { modes(3); }
