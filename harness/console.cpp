// Serial console: C35.
// @source SerialUserInterface.cpp
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
#include "node.h"
#include "SerialUserInterface.h"
#include "bus.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }
static int configPrinted; void printConfig() { configPrinted++; }

struct Console
{
  Node *n; Bus *bus; SerialUserInterface *ui; unsigned size; byte *before; byte *table;
  Console(unsigned nvs, unsigned events, unsigned evs, bool symbolic = true)
  {
    size = 10 + nvs + events * (4 + evs); n = new Node(size); n->geometry(nvs, events, evs);
    if (symbolic) { n->mem->symbolic(1, size); n->mem->m[LOCATION_MODE] = sx_fork(sx_bool("mode")) ? MODE_NORMAL : MODE_UNINITIALISED; } else n->mem->m[LOCATION_MODE] = MODE_NORMAL;
    bus = MAKE(Bus); bus->rx = sx_u32("c"); bus->tx = sx_u32("c"); bus->rxe = sx_u32("c"); bus->txe = sx_u32("c"); bus->st = sx_u32("c"); ui = MAKE(SerialUserInterface, bus);
    n->start(MAKE(Controller, n->conf, {ui, n->rec}));
    before = (byte *)malloc(size); for (unsigned i = 0; i < size; i++) before[i] = n->mem->m[i];
    table = (byte *)malloc(256); for (unsigned i = 0; i < events; i++) table[i] = n->conf->getEvTableEntry(i);
    n->mem->writes = n->mem->resets = 0; configPrinted = 0;
  }
  void type(char c) { int i = env::serialInLen; env::serialIn[i] = c; env::serialInLen = i + 1; }
  void undisturbed(int setups)
  {
    bool ok = true; for (unsigned i = 0; i < size; i++) ok = ok & (n->mem->m[i] == before[i]); sx_assert(ok && n->mem->resets == 0, "stored data stays as it is");
    bool same = true; for (unsigned i = 0; i < n->conf->EE_MAX_EVENTS; i++) same = same & (n->conf->getEvTableEntry(i) == table[i]); sx_assert(same, "the event table stays as it is");
    sx_assert(n->rec->n == 0 && n->rec->nin == 0 && bus->nout == 0, "nothing is sent"); sx_assert(n->rec->enumReq == 0 && n->rec->modes == 0, "nothing is started or indicated");
    sx_assert(n->rec->others == setups, "only the setup command requests a mode change"); sx_assert(bus->nin == 0, "nothing is received");
  }
};
// every character on a module with arbitrary contents
CASE(C35_any_character)
{
  Console c(2, 2, 1); byte k = sx_u8("key"); int key = sx_fork(k); c.type(key); env::now = sx_u32("now"); byte mode = c.n->conf->currentMode; unsigned nn = c.n->conf->nodeNum; byte id = c.n->conf->CANID;
  c.n->poll(); c.n->poll(); c.undisturbed(key == 's'); sx_assert(c.bus->resets == (key == 'y'), "only the reset command resets the bus"); sx_assert(configPrinted == (key == 'n'), "the application prints its configuration on request");
  sx_assert(c.n->conf->currentMode == mode && c.n->conf->nodeNum == nn && c.n->conf->CANID == id, "the module keeps its identity"); sx_assert(!Serial.available(), "the character is consumed");
}
CASE(C35_two_characters)
{
  Console c(1, 1, 1, false); static const char keys[] = "neVvchy*ms\r?"; int a = keys[sx_fork(sx_range("k1", 0, sizeof keys - 2))], b = keys[sx_fork(sx_range("k2", 0, sizeof keys - 2))]; c.type(a); c.type(b);
  c.n->poll(); c.n->poll(); c.n->poll(); c.undisturbed((a == 's') + (b == 's')); sx_assert(c.bus->resets == (a == 'y') + (b == 'y'), "only the reset command resets the bus");
}
// silence, and indications of mode and activity
CASE(C35_silent)
{
  Console c(2, 2, 1); int op = sx_fork(sx_range("op", 0, 5)); Action a = {op == 0 ? ACT_INDICATE_ACTIVITY : op == 1 ? ACT_RENEGOTIATE : ACT_INDICATE_MODE}; if (op >= 2) a.mode = op == 2 ? MODE_NORMAL : op == 3 ? MODE_SETUP : op == 4 ? MODE_UNINITIALISED : (VlcbModeParams)sx_u8("mode"); 
  c.n->ctl->putAction(a); c.n->drain(); c.n->poll(); c.n->rec->modes -= op >= 2; c.undisturbed(op == 1);
}
// the largest modules: every command ends
CASE(C35_all_variables) { Console c(sx_fork(sx_range("nvs", 250, 255)), 1, 1, false); c.type('v'); c.n->poll(); c.undisturbed(0); }
// @case steps=30000000
CASE(C35_all_events) { Console c(1, 255, 20, false); for (int i = 0; i < 255; i++) { c.n->mem->m[c.n->evAddr(i)] = i + 1; c.n->mem->m[c.n->evAddr(i) + 3] = i; } for (int i = 0; i < 255; i++) c.n->conf->updateEvHashEntry(i); for (unsigned i = 0; i < c.size; i++) c.before[i] = c.n->mem->m[i]; for (int i = 0; i < 255; i++) c.table[i] = c.n->conf->getEvTableEntry(i); c.type('e'); c.n->poll(); c.undisturbed(0); }
CASE(C35_all_event_variables) { Console c(1, 1, 251, false); for (unsigned i = 11; i < c.size; i++) c.n->mem->m[i] = i; c.n->conf->updateEvHashEntry(0); for (unsigned i = 0; i < c.size; i++) c.before[i] = c.n->mem->m[i]; c.table[0] = c.n->conf->getEvTableEntry(0); c.type('e'); c.n->poll(); c.undisturbed(0); }
// ---- what is shown ----
static int number(int &pos, int base) { while (base == 10 && pos < env::serialOutLen && !(env::serialOut[pos] >= '0' && env::serialOut[pos] <= '9')) pos++; int v = 0; for (; pos < env::serialOutLen; pos++) { int ch = env::serialOut[pos]; int d = ch >= '0' && ch <= '9' ? ch - '0' : base == 16 && (ch | 32) >= 'a' && (ch | 32) <= 'f' ? (ch | 32) - 'a' + 10 : -1; if (d < 0) break; v = v * base + d; } return v; }
static int find(const char *t, int from) { for (int i = from; i < env::serialOutLen; i++) { int k = 0; while (t[k] && env::serialOut[i + k] == t[k]) k++; if (!t[k]) return i + k; } return -1; }
CASE(C35_shows_variables)
{
  Console c(2, 1, 1); env::captureStream = true; c.type('v'); c.n->poll(); int at = find("Val", 0); sx_assert(at >= 0, "a table is shown");
  for (int j = 1; j <= 2; j++) { int i = number(at, 10), v = number(at, 10); sx_assert(i == j && v == c.n->mem->m[9 + j], "each node variable is shown"); int next = find("\n", at); sx_assert(next >= 0, "one line each"); at = next; }
  sx_assert(number(at, 10) == 0 && at >= env::serialOutLen, "and nothing else");
}
CASE(C35_shows_event)
{
  Console c(0, 2, 1, false); bool second = sx_fork(sx_bool("second")); byte *e = c.n->mem->m + c.n->evAddr(second); for (int i = 0; i < 4; i++) { e[i] = sx_u8("ev"); } e[4] = sx_u8("v"); sx_assume((e[2] != 255) | (e[3] != 255)); c.n->conf->updateEvHashEntry(second); c.n->conf->updateEvHashEntry(!second); byte *o = c.n->mem->m + c.n->evAddr(!second); for (int i = 0; i < 5; i++) o[i] = 255; c.n->conf->updateEvHashEntry(!second);
  env::captureStream = true; c.type('e'); c.n->poll(); int at = find("---\n", 0); sx_assert(at >= 0, "a table is shown"); int ix = number(at, 10); sx_assert(ix == second, "the stored event is shown"); for (int i = 0; i < 5; i++) { at = find("0x", at); sx_assert(at >= 0, "all its values are shown"); sx_assert(number(at, 16) == e[i], "with their values"); }
  int nl = find("\n", at); sx_assert(nl >= 0 && find("0x", nl) < 0, "free entries are not shown");
}
