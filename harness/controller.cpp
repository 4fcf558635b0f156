// The controller as the link between services: C39.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
#include "node.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
static Mem settingsMemory(10);
namespace VLCB { Configuration config(&settingsMemory); }

// --- C39 ---------------------------------------------------------------------------------------
static const int NOTHING = -1;
struct Entry { int service, type; byte len, d[8]; };
static Entry seen[400]; static int nseen; static int begun[8], nbegun; static unsigned numberAtBegin;
static Entry posted[64]; static int nposted, budget;
static void note(int service, const Action *a)
{
  sx_assert(nseen < 400, "too many calls"); Entry &e = seen[nseen++]; e.service = service; e.type = a ? a->actionType : NOTHING; if (!a) return;
  e.len = a->vlcbMessage.len; for (int i = 0; i < 8; i++) e.d[i] = a->vlcbMessage.data[i];
}
static Action make()
{
  Action a; a.actionType = (ACTION)sx_range("type", 0, 6); a.vlcbMessage.len = sx_u8("len"); for (int i = 0; i < 8; i++) a.vlcbMessage.data[i] = sx_u8("d");
  sx_assert(nposted < 64, "too many actions"); Entry &e = posted[nposted++]; e.type = a.actionType; e.len = a.vlcbMessage.len; for (int i = 0; i < 8; i++) e.d[i] = a.vlcbMessage.data[i];
  return a;
}
struct Relay : Service
{
  int index, most;
  Relay(int i, int m) { index = i; most = m; }
  VlcbServiceTypes getServiceID() const { return (VlcbServiceTypes)(200 + index); }
  byte getServiceVersionID() const { return 1; }
  void begin() { begun[nbegun++] = index; numberAtBegin = controller->getModuleConfig()->nodeNum; }
  void process(const Action *a)
  {
    note(index, a); if (!a || !budget) return;
    int k = sx_fork(sx_range("posts", 0, most)); for (int i = 0; i < k && budget; i++) { budget--; controller->putAction(make()); }
  }
};
static Controller *network(Configuration *conf, int services, int most)
{
  Service *s[4]; for (int i = 0; i < services; i++) s[i] = MAKE(Relay, i, most);
  nseen = nposted = nbegun = 0;
  switch (services) { case 0: { std::initializer_list<Service *> none; return MAKE(Controller, conf, none); } case 1: return MAKE(Controller, conf, {s[0]}); case 2: return MAKE(Controller, conf, {s[0], s[1]}); case 3: return MAKE(Controller, conf, {s[0], s[1], s[2]}); default: return MAKE(Controller, conf, {s[0], s[1], s[2], s[3]}); }
}
static Mem *stored;
static Configuration *settings() { Mem *m = stored = MAKE(Mem, 10); regularSettings(m, MODE_NORMAL); Configuration *c = MAKE(Configuration, m); c->EE_NVS_START = c->EE_EVENTS_START = 10; return c; }
static void all(Controller *c, int services)
{
  for (int i = 0; i < 200 && c->pendingAction(); i++) c->process();
  sx_assert(!c->pendingAction(), "all actions are processed");
  sx_assert(nseen == nposted * services, "every service is given every action exactly once");
  bool order = true, same = true;
  for (int i = 0; i < nseen && i < nposted * services; i++) { Entry &w = posted[i / services], &e = seen[i]; order = order & (e.service == i % services); same = same & (e.type == w.type) & (e.len == w.len); for (int k = 0; k < 8; k++) same = same & (e.d[k] == w.d[k]); }
  sx_assert(order, "in the order of configuration, one action after the other"); sx_assert(same, "actions are handed over unmodified in the order they were posted");
  nseen = 0; c->process(); bool idle = nseen == services; for (int i = 0; i < services && i < nseen; i++) idle = idle & (seen[i].service == i) & (seen[i].type == NOTHING);
  sx_assert(idle, "an idle poll runs every service once, without action"); nseen = nposted = 0;
}
CASE(C39_posted)
{
  int services = sx_fork(sx_range("services", 0, 4)); Configuration *conf = settings(); Controller *c = network(conf, services, 0); c->begin(); budget = 0;
  sx_assert(nbegun == services, "every service is started once"); bool ok = true; for (int i = 0; i < nbegun; i++) ok = ok & (begun[i] == i); sx_assert(ok, "in the order of configuration"); sx_assert(conf->nodeNum == stored->m[2] * 256u + stored->m[3], "the stored settings are loaded"); if (services) sx_assert(numberAtBegin == stored->m[2] * 256u + stored->m[3], "after the stored settings were loaded");
  for (int r = 0; r < 2; r++) { int k = sx_fork(sx_range("actions", 0, 5)); for (int i = 0; i < k; i++) c->putAction(make()); all(c, services); }
}
// posted while others are processed, and between polls
static void meanwhile(int services, int most, int actions)
{
  sx_need("posted meanwhile"); Configuration *conf = settings(); Controller *c = network(conf, services, most); c->begin(); budget = sx_fork(sx_range("budget", 1, actions));
  c->putAction(make()); c->process(); c->putAction(make()); all(c, services); if (budget == 0) sx_cover("posted meanwhile");
}
// @case merge=0
CASE(C39_while_processing) { meanwhile(3, 2, 4); }
// @case tier=thorough merge=0
CASE(C39_while_processing_6) { meanwhile(4, 3, 6); }
// as many actions as can be pending
CASE(C39_burst)
{
  Configuration *conf = settings(); Controller *c = network(conf, 2, 0); c->begin(); budget = 0; int k = sx_fork(sx_range("actions", 25, 30)); for (int r = 0; r < 2; r++) { for (int i = 0; i < k; i++) c->putAction(make()); all(c, 2); }
}
// the queue is full whenever an action is taken from it
CASE(C39_full)
{
  Configuration *conf = settings(); Controller *c = network(conf, 2, 1); c->begin(); budget = 0; int first = sx_fork(sx_range("first", 0, 3)); for (int i = 0; i < first; i++) c->putAction(make()); all(c, 2);
  for (int i = 0; i < 30; i++) c->putAction(make()); budget = 1; c->process(); budget = 0; all(c, 2);
}
// a sketch that leaves the settings to the library
CASE(C39_default_settings)
{
  stored = &settingsMemory; regularSettings(stored, MODE_NORMAL); config.EE_NVS_START = config.EE_EVENTS_START = 10; nseen = nposted = nbegun = 0; Service *a = MAKE(Relay, 0, 2), *b = MAKE(Relay, 1, 1); Controller *c = MAKE(Controller, {a, b});
  sx_assert(c->getModuleConfig() == &config, "the sketch's settings are used"); c->begin(); sx_assert(nbegun == 2 && begun[0] == 0 && begun[1] == 1 && numberAtBegin == stored->m[2] * 256u + stored->m[3], "services are started in order after the stored settings were loaded");
  budget = 3; c->putAction(make()); c->putAction(make()); all(c, 2); sx_assert(c->getServices().size() == 2, "all services are known");
}
// the shorthands post what they say
struct One : Service
{
  VlcbServiceTypes getServiceID() const { return (VlcbServiceTypes)0; }
  byte getServiceVersionID() const { return 1; }
  void process(const Action *a) { note(0, a); }
};
CASE(C39_shorthands)
{
  Configuration *conf = settings(); Controller *c = MAKE(Controller, conf, {MAKE(One)}); byte params[21]; for (int i = 0; i < 21; i++) params[i] = i ? 0x40 + i : 20; c->setParams(params); c->begin(); nseen = nposted = 0; unsigned nn = conf->nodeNum;
  byte op = sx_u8("op"), b[5]; for (int i = 0; i < 5; i++) b[i] = sx_u8("b"); VlcbOpCodes o = (VlcbOpCodes)op; int kind = sx_fork(sx_range("kind", 0, 13)); int n = -1; byte want[8] = {op, (byte)hi(nn), (byte)lo(nn), b[0], b[1], b[2], b[3], b[4]}; int type = ACT_MESSAGE_OUT;
  int pending = sx_fork(sx_range("pending", 0, 2)); for (int i = 0; i < pending; i++) c->putAction(make());
  switch (kind)
  {
    case 0: c->sendMessageWithNN(o); n = 3; break;
    case 1: c->sendMessageWithNN(o, b[0]); n = 4; break;
    case 2: c->sendMessageWithNN(o, b[0], b[1]); n = 5; break;
    case 3: c->sendMessageWithNN(o, b[0], b[1], b[2]); n = 6; break;
    case 4: c->sendMessageWithNN(o, b[0], b[1], b[2], b[3]); n = 7; break;
    case 5: c->sendMessageWithNN(o, b[0], b[1], b[2], b[3], b[4]); n = 8; break;
    case 6: c->sendWRACK(); n = 3; want[0] = OPC_WRACK; break;
    case 7: c->sendCMDERR(b[0]); n = 4; want[0] = OPC_CMDERR; break;
    case 8: c->sendGRSP(o, b[0], b[1]); n = 6; want[0] = OPC_GRSP; want[3] = op; want[4] = b[0]; want[5] = b[1]; break;
    case 9: { VlcbMessage m; m.len = n = sx_fork(sx_range("len", 0, 8)); m.data[0] = op; m.data[1] = b[0]; m.data[2] = b[1]; for (int i = 0; i < 5; i++) m.data[3 + i] = b[i]; want[1] = b[0]; want[2] = b[1]; c->sendMessage(&m); break; }
    case 10: c->indicateActivity(); type = ACT_INDICATE_ACTIVITY; break;
    case 11: { bool normal = sx_fork(sx_bool("normal")); VlcbModeParams m = normal ? MODE_NORMAL : sx_fork(sx_bool("setup")) ? MODE_SETUP : MODE_UNINITIALISED; byte f = params[PAR_FLAGS]; c->indicateMode(m); type = ACT_INDICATE_MODE; n = -2; want[0] = m; sx_assert(params[PAR_FLAGS] == ((f & ~PF_NORMAL) | (normal ? PF_NORMAL : 0)), "the normal flag follows the mode"); break; }
    case 12: c->putAction(ACT_RENEGOTIATE); type = ACT_RENEGOTIATE; break;
    case 13: c->putAction(ACT_CHANGE_MODE); type = ACT_CHANGE_MODE; break;
  }
  while (c->pendingAction()) c->process();
  sx_assert(nseen == pending + 1, "one action, whatever is pending"); Entry &last = seen[pending]; sx_assert(last.type == type, "of the right kind");
  if (n >= 0) { bool ok = last.len == n; for (int i = 0; i < n; i++) ok = ok & (last.d[i] == want[i]); sx_assert(ok, "the message has the node number and the data given"); }
  if (n == -2) sx_assert(last.len == want[0], "the mode given");
}
