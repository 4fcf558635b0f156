// Minimum node service: C09 modes, C16 queries, C18 heartbeat.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
// @source MinimumNodeServiceWithDiagnostics.cpp
// @source CanService.cpp
// @source CanServiceWithDiagnostics.cpp
// @source NodeVariableService.cpp
// @source EventTeachingService.cpp
// @source EventTeachingServiceWithDiagnostics.cpp
// @source EventConsumerService.cpp
// @source EventConsumerServiceWithDiagnostics.cpp
// @source EventProducerService.cpp
// @source EventProducerServiceWithDiagnostics.cpp
#include "fullnode.h"

struct Mns : Node
{
  MinimumNodeService *mns;
  // the reference: operating mode, stored mode, identity
  byte mode, cur, canid; unsigned nn;
  Mns(bool diag = false) : Node(10) { geometry(0, 0, 0); mns = diag ? MAKE(MinimumNodeServiceWithDiagnostics) : MAKE(MinimumNodeService); }
  void go(int m)
  {
    regularSettings(mem, m);
    if (m == MODE_UNINITIALISED) mem->m[LOCATION_NODE_NUMBER_HIGH] = mem->m[LOCATION_NODE_NUMBER_LOW] = 0;
    start(MAKE(Controller, conf, {mns, rec}));
    mode = cur = m; nn = conf->nodeNum; canid = conf->CANID;
  }
  bool normal() { return params[PAR_FLAGS] & PF_NORMAL; }
  M rqnn() { return M(OPC_RQNN, hi(nn), lo(nn)); }
  M nnack() { return M(OPC_NNACK, hi(nn), lo(nn)); }
  M nnrel() { return M(OPC_NNREL, hi(nn), lo(nn)); }
  // the running, stored and announced state equals the reference
  void agree()
  {
    sx_assert(conf->currentMode == cur && mem->m[LOCATION_MODE] == cur, "the stored mode is as documented");
    sx_assert(conf->nodeNum == nn && mem->m[LOCATION_NODE_NUMBER_HIGH] == hi(nn) && mem->m[LOCATION_NODE_NUMBER_LOW] == lo(nn), "the node number is as documented");
    sx_assert(conf->CANID == canid && mem->m[LOCATION_CANID] == canid, "the CAN id is as documented");
    sx_assert(normal() == (mode == MODE_NORMAL), "the normal flag tells whether the module is in normal mode");
    rec->clear(); receive(M(OPC_RQNP));
    sx_assert(rec->n == (mode == MODE_SETUP), "parameters are offered in setup mode only");
    rec->clear();
  }
  void announced(bool yes)
  {
    if (yes) sx_assert(rec->modes >= 1 && rec->lastMode == mode, "the new mode is announced");
    else sx_assert(rec->modes == 0 || rec->lastMode == mode, "no other mode is announced");
  }
  void enterSetup(bool enumerate)
  {
    mode = MODE_SETUP; announced(true);
    sx_assert(only(*rec, rqnn()), "a node number is requested");
    sx_assert(rec->enumReq == (enumerate ? 1 : 0) && rec->enumFromMsg == 0, "a CAN id enumeration accompanies the first setup only");
  }
  void release(const M *extra)
  {
    bool rel = mode == MODE_NORMAL && nn != 0; M r = nnrel();
    if (extra && rel) sx_assert(both(*rec, *extra, r), "the command is confirmed and the node number released");
    else if (extra) sx_assert(only(*rec, *extra), "the command is confirmed");
    else if (rel) sx_assert(only(*rec, r), "the node number is released");
    else sx_assert(rec->n == 0, "nothing to release");
    mode = cur = MODE_UNINITIALISED; nn = 0; canid = 0; announced(true); sx_assert(rec->enumReq == 0, "no enumeration");
  }
  void change()
  {
    rec->clear(); ctl->putAction(ACT_CHANGE_MODE); drain();
    if (mode == MODE_UNINITIALISED) enterSetup(true); else release(nullptr);
  }
  void renegotiate()
  {
    rec->clear(); ctl->putAction(ACT_RENEGOTIATE); drain();
    if (mode == MODE_NORMAL) enterSetup(false);
    else if (mode == MODE_SETUP)
    {
      mode = cur; announced(true);
      if (nn) sx_assert(only(*rec, nnack()), "the previous node number is confirmed"); else sx_assert(rec->n == 0, "nothing to confirm");
    }
    else { announced(false); sx_assert(rec->n == 0 && rec->enumReq == 0, "nothing happens in uninitialised mode"); }
  }
  void message(const Msg &m)
  {
    rec->clear(); receive(m);
    unsigned a = m.d[1] * 256u + m.d[2];
    if (m.d[0] == OPC_SNN && mode == MODE_SETUP && m.len >= 3) { mode = cur = MODE_NORMAL; nn = a; announced(true); sx_assert(only(*rec, nnack()), "the node number is acknowledged"); }
    else if (m.d[0] == OPC_RQNN && mode == MODE_SETUP) { mode = cur; announced(true); sx_assert(rec->n == 0, "setup is abandoned silently"); }
    else if (m.d[0] == OPC_MODE && a == nn && m.len >= 4 && m.d[3] == MODE_UNINITIALISED && mode != MODE_UNINITIALISED) { M ok = GRSPM(OPC_MODE, SERVICE_ID_MNS, GRSP_OK); release(&ok); }
    else if (m.d[0] == OPC_MODE && a == nn && m.len >= 4 && m.d[3] == MODE_SETUP && mode == MODE_NORMAL)
    {
      mode = MODE_SETUP; announced(true);
      sx_assert(both(*rec, GRSPM(OPC_MODE, SERVICE_ID_MNS, GRSP_OK), rqnn()), "the command is confirmed and a node number requested"); sx_assert(rec->enumReq == 0, "no enumeration");
    }
    else
    {
      if (m.d[0] == OPC_MODE && a == nn && m.len >= 4 && m.d[3] <= MODE_NORMAL && mode != MODE_UNINITIALISED)
        sx_assert(only(*rec, GRSPM(OPC_MODE, SERVICE_ID_MNS, (mode == MODE_NORMAL ? GRSP_OK : GRSP_INVALID_MODE))), "other mode requests are answered");
      announced(false); sx_assert(rec->enumReq == 0, "nothing else starts an enumeration");
    }
  }
};

// --- C09 ---------------------------------------------------------------------------------------
static Msg anyMessage() { Msg m; m.len = sx_range("len", 1, 8); for (int i = 0; i < 8; i++) { byte b = sx_u8("d"); m.d[i] = i < m.len ? b : 0; } return m; }
static void modes(int startMode, int steps, bool diag)
{
  sx_need("setup"); sx_need("normal"); sx_need("uninitialised");
  Mns *n = new Mns(diag); n->go(startMode); n->agree();
  for (int s = 0; s < steps; s++)
  {
    switch (sx_fork(sx_range("op", 0, 2)))
    {
      case 0: n->change(); break;
      case 1: n->renegotiate(); break;
      default: { Msg m = anyMessage(); sx_assume(m.d[0] != OPC_NNRSM); n->message(m); }
    }
    n->agree();
    if (n->mode == MODE_SETUP) sx_cover("setup"); else if (n->mode == MODE_NORMAL) sx_cover("normal"); else sx_cover("uninitialised");
  }
}
CASE(C09_normal_1) { modes(MODE_NORMAL, 1, false); }
CASE(C09_normal_3) { modes(MODE_NORMAL, 3, false); }
CASE(C09_uninitialised_3) { modes(MODE_UNINITIALISED, 3, false); }
CASE(C09_normal_diag_3) { modes(MODE_NORMAL, 3, true); }
CASE(C09_uninitialised_diag_3) { modes(MODE_UNINITIALISED, 3, true); }
// @case cost=50
CASE(C09_normal_4) { modes(MODE_NORMAL, 4, false); }
// @case cost=50
CASE(C09_uninitialised_4) { modes(MODE_UNINITIALISED, 4, false); }
// @case cost=100 tier=thorough
CASE(C09_normal_6) { modes(MODE_NORMAL, 6, false); }
// the idle loop and the clock never change mode
CASE(C09_idle)
{
  Mns *n = new Mns(); n->go(MODE_NORMAL);
  int op = sx_fork(sx_range("op", 0, 2)); if (op == 1) n->renegotiate(); if (op == 2) n->change();
  for (int i = 0; i < 3; i++) { env::now += sx_u64("dt"); n->poll(); }
  sx_assert(n->rec->modes == 0 || n->rec->lastMode == n->mode, "no mode change by itself"); n->agree();
}
// an aborted setup restores everything; a restart in setup resumes the stored mode
CASE(C09_restart_in_setup)
{
  Mns *n = new Mns(); n->go(MODE_NORMAL); n->renegotiate();
  Configuration *c = MAKE(Configuration, n->mem); c->begin();
  sx_assert(c->currentMode == MODE_NORMAL && c->nodeNum == n->nn && c->CANID == n->canid, "a restart during setup keeps the previous identity");
}

// --- C16 ---------------------------------------------------------------------------------------
static Kind kinds(int k) { return k == 0 ? PLAIN : k == 1 ? DIAG : MIXED; }
// a node in one of the modes, with arbitrary parameters and name
static FullNode *queried(Kind kind, int mode, bool learn, int count)
{
  FullNode *n = new FullNode(2, 2, 1); regularSettings(n->mem, mode == MODE_SETUP ? MODE_NORMAL : mode); n->go(kind);
  for (int i = 1; i < 21; i++) if (i != PAR_FLAGS) n->params[i] = sx_u8("param");
  for (int i = 0; i < 7; i++) n->name[i] = sx_u8("name");
  n->params[PAR_NUM] = count;
  if (mode == MODE_SETUP) { n->ctl->putAction(ACT_RENEGOTIATE); n->drain(); }
  if (learn) n->receive(M(OPC_NNLRN, hi(n->nn), lo(n->nn)));
  n->rec->clear();
  return n;
}
static void query(int opc)
{
  Kind kind = kinds(sx_fork(sx_range("kind", 0, 2))); int ms = sx_fork(sx_range("mode", 0, 2)); int mode = ms == 0 ? MODE_SETUP : ms == 1 ? MODE_NORMAL : MODE_UNINITIALISED;
  bool learn = sx_fork(sx_bool("learn")); int count = sx_fork(sx_bool("few")) ? 8 : 20;
  FullNode *n = queried(kind, mode, learn, count); unsigned nn = n->nn; byte *p = n->params; Recorder &r = *n->rec;
  sx_assert(p[PAR_FLAGS] == n->flags(mode == MODE_NORMAL, learn), "the flags tell the services, mode and learn mode");
  byte before[21]; memcpy(before, p, 21);
  byte ix = sx_u8("ix"); bool mine = sx_fork(sx_bool("mine")); unsigned a = sx_u16("a"); if (mine) a = nn; else sx_assume(a != nn);
  switch (opc)
  {
    case OPC_QNN:
      n->receive(M(OPC_QNN));
      if (nn) { sx_cover("answered"); sx_assert(only(r, M(OPC_PNN, hi(nn), lo(nn), p[PAR_MANU], p[PAR_MTYP], p[PAR_FLAGS])), "the identity is reported"); }
      else { sx_cover("silent"); sx_assert(r.n == 0, "a module without node number stays silent"); }
      break;
    case OPC_RQNP:
      n->receive(M(OPC_RQNP));
      if (mode == MODE_SETUP) { sx_cover("answered"); sx_assert(only(r, M(OPC_PARAMS, p[1], p[2], p[3], p[4], p[5], p[6], p[7])), "the first seven parameters"); }
      else { sx_cover("silent"); sx_assert(r.n == 0, "only in setup"); }
      break;
    case OPC_RQMN:
      n->receive(M(OPC_RQMN));
      if (mode == MODE_SETUP || learn) { sx_cover("answered"); byte *q = n->name; sx_assert(only(r, M(OPC_NAME, q[0], q[1], q[2], q[3], q[4], q[5], q[6])), "the name"); }
      else { sx_cover("silent"); sx_assert(r.n == 0, "only in setup or learn mode"); }
      break;
    case OPC_RQNPN:
      n->receive(M(OPC_RQNPN, hi(a), lo(a), ix));
      if (!mine) { sx_cover("silent"); sx_assert(r.n == 0, "not for this node"); }
      else if (ix == 0)
      {
        sx_cover("all"); sx_assert(r.n == count + 1, "all parameters");
        for (int i = 0; i <= count; i++) sx_assert(same(r.out[i], M(OPC_PARAN, hi(nn), lo(nn), i, p[i])), "each parameter in order, the count first");
      }
      else if (ix <= count) { sx_cover("answered"); byte v = 0; for (int i = 0; i <= count; i++) v = ix == i ? p[i] : v; sx_assert(only(r, M(OPC_PARAN, hi(nn), lo(nn), ix, v)), "the parameter's value"); }
      else { sx_cover("refused"); sx_assert(both(r, CMDERRM(CMDERR_INV_PARAM_IDX), GRSPM(OPC_RQNPN, SERVICE_ID_MNS, CMDERR_INV_PARAM_IDX)), "invalid index"); }
      break;
    case OPC_RQSD:
    {
      n->receive(M(OPC_RQSD, hi(a), lo(a), ix));
      int listed = 0; for (int i = 0; i < n->services; i++) listed += n->list[i]->getServiceID() != 0;
      if (!mine) { sx_cover("silent"); sx_assert(r.n == 0, "not for this node"); }
      else if (ix == 0)
      {
        sx_cover("all"); sx_assert(r.n == listed + 1, "all services"); sx_assert(same(r.out[0], M(OPC_SD, hi(nn), lo(nn), 0, 0, listed)), "the number of services first");
        int k = 1; for (int i = 0; i < n->services; i++) if (n->list[i]->getServiceID() != 0) { sx_assert(same(r.out[k], M(OPC_SD, hi(nn), lo(nn), i + 1, n->list[i]->getServiceID(), n->list[i]->getServiceVersionID())), "each service with index, type and version"); k++; }
      }
      else
      {
        int type = 0; for (int i = 0; i < n->services; i++) type = ix == i + 1 ? n->list[i]->getServiceID() : type;
        if (type) { sx_cover("answered"); sx_assert(only(r, M(OPC_ESD, hi(nn), lo(nn), ix, type, 0, 0, 0)), "the service at this index"); }
        else { sx_cover("refused"); sx_assert(only(r, GRSPM(OPC_RQSD, SERVICE_ID_MNS, GRSP_INVALID_SERVICE)), "no such service"); }
      }
      break;
    }
  }
  bool eq = true; for (int i = 0; i < 21; i++) eq = eq & (p[i] == before[i]);
  sx_assert(eq, "a query changes no parameter");
}
CASE(C16_qnn) { sx_need("answered"); sx_need("silent"); query(OPC_QNN); }
CASE(C16_rqnp) { sx_need("answered"); sx_need("silent"); query(OPC_RQNP); }
CASE(C16_rqmn) { sx_need("answered"); sx_need("silent"); query(OPC_RQMN); }
CASE(C16_rqnpn) { sx_need("answered"); sx_need("silent"); sx_need("all"); sx_need("refused"); query(OPC_RQNPN); }
CASE(C16_rqsd) { sx_need("answered"); sx_need("silent"); sx_need("all"); sx_need("refused"); query(OPC_RQSD); }
// any set of services
struct Custom : Service
{
  byte id, version; Custom() : id(sx_u8("id")), version(sx_u8("version")) {}
  VlcbServiceTypes getServiceID() const { return (VlcbServiceTypes)id; }
  byte getServiceVersionID() const { return version; }
  void process(const Action *) {}
};
CASE(C16_services)
{
  Node *n = new Node(20); n->geometry(1, 1, 1); regularSettings(n->mem, MODE_NORMAL); Custom *c[3]; for (int i = 0; i < 3; i++) c[i] = MAKE(Custom);
  MinimumNodeService *mns = MAKE(MinimumNodeService); n->start(MAKE(Controller, n->conf, {c[0], mns, c[1], n->rec, c[2]})); unsigned nn = n->conf->nodeNum;
  byte flags = PF_VLCB | PF_NORMAL; for (int i = 0; i < 3; i++) flags |= c[i]->id == SERVICE_ID_PRODUCER ? PF_PRODUCER : c[i]->id == SERVICE_ID_CONSUMER ? PF_CONSUMER : c[i]->id == SERVICE_ID_CONSUME_OWN_EVENTS ? PF_COE : 0; sx_assert(n->params[PAR_FLAGS] == flags, "the flags tell the services");
  int id[5] = {c[0]->id, SERVICE_ID_MNS, c[1]->id, 0, c[2]->id}, version[5] = {c[0]->version, mns->getServiceVersionID(), c[1]->version, 0, c[2]->version};
  int listed = 0; for (int i = 0; i < 5; i++) { id[i] = sx_fork(id[i] != 0) ? id[i] : 0; listed += id[i] != 0; }
  n->receive(M(OPC_RQSD, hi(nn), lo(nn), 0)); Recorder &r = *n->rec;
  sx_assert(r.n == listed + 1 && same(r.out[0], M(OPC_SD, hi(nn), lo(nn), 0, 0, listed)), "the number of services first, then each of them");
  int k = 1; for (int i = 0; i < 5; i++) if (id[i]) { sx_assert(same(r.out[k], M(OPC_SD, hi(nn), lo(nn), i + 1, id[i], version[i])), "each service with index, type and version"); k++; }
  byte ix = sx_fork(sx_range("ix", 1, 8)); r.clear(); n->receive(M(OPC_RQSD, hi(nn), lo(nn), ix));
  if (ix <= 5 && id[ix - 1]) sx_assert(only(r, M(OPC_ESD, hi(nn), lo(nn), ix, id[ix - 1], 0, 0, 0)), "the service at this index"); else sx_assert(only(r, M(OPC_GRSP, hi(nn), lo(nn), OPC_RQSD, SERVICE_ID_MNS, GRSP_INVALID_SERVICE)), "no such service");
}
// the flags parameter follows any history of mode and learn commands
static void flagHistory(Kind kind, int steps)
{
  FullNode *n = new FullNode(1, 2, 1); regularSettings(n->mem, MODE_NORMAL); sx_assume(n->mem->m[2] | n->mem->m[3]); n->go(kind);
  byte mode = MODE_NORMAL, cur = MODE_NORMAL; bool learn = false;
  for (int s = 0; s < steps; s++)
  {
    unsigned nn = n->conf->nodeNum;
    switch (sx_fork(sx_range("op", 0, 7)))
    {
      case 0: n->ctl->putAction(ACT_CHANGE_MODE); n->drain(); if (mode == MODE_UNINITIALISED) mode = MODE_SETUP; else mode = cur = MODE_UNINITIALISED; break;
      case 1: n->ctl->putAction(ACT_RENEGOTIATE); n->drain(); if (mode == MODE_SETUP) mode = cur; else if (mode == MODE_NORMAL) mode = MODE_SETUP; break;
      case 2: n->receive(M(OPC_SNN, 1, 2)); if (mode == MODE_SETUP) mode = cur = MODE_NORMAL; break;
      case 3: n->receive(M(OPC_NNLRN, hi(nn), lo(nn))); learn = true; break;
      case 4: n->receive(M(OPC_NNULN, hi(nn), lo(nn))); learn = false; break;
      case 5: n->receive(M(OPC_MODE, hi(nn), lo(nn), MODE_LEARN_ON)); learn = true; break;
      case 6: n->receive(M(OPC_MODE, hi(nn), lo(nn), MODE_LEARN_OFF)); learn = false; break;
      case 7: n->receive(M(OPC_RQNN, 9, 9)); if (mode == MODE_SETUP) mode = cur; break;
    }
    sx_assert(n->params[PAR_FLAGS] == n->flags(mode == MODE_NORMAL, learn), "the flags tell the services, mode and learn mode");
  }
}
// parameters that are set again while the module runs
CASE(C16_flags_again)
{
  Kind kind = kinds(sx_fork(sx_range("kind", 0, 2))); int mode = sx_fork(sx_bool("normal")) ? MODE_NORMAL : MODE_UNINITIALISED;
  FullNode *n = queried(kind, mode, false, 20); unsigned nn = n->nn; byte *again = (byte *)calloc(1, 21); for (int i = 0; i < 21; i++) again[i] = sx_u8("again"); again[PAR_NUM] = 20; byte keep[21]; memcpy(keep, again, 21);
  n->ctl->setParams(again); bool ok = true; for (int i = 0; i < 21; i++) ok = ok & (again[i] == (i == PAR_FLAGS ? n->flags(mode == MODE_NORMAL, false) : keep[i])); sx_assert(ok, "parameters set again have the flags of the services and the mode");
  n->receive(M(OPC_QNN)); if (nn) sx_assert(only(*n->rec, M(OPC_PNN, hi(nn), lo(nn), again[PAR_MANU], again[PAR_MTYP], n->flags(mode == MODE_NORMAL, false))), "and are reported"); else sx_assert(n->rec->n == 0, "a module without node number stays silent");
}
CASE(C16_flags_plain) { flagHistory(PLAIN, 3); }
CASE(C16_flags_diag) { flagHistory(DIAG, 3); }
CASE(C16_flags_mixed) { flagHistory(MIXED, 3); }

// --- C18 ---------------------------------------------------------------------------------------
static void beats(int steps, bool commands)
{
  sx_need("beat"); sx_need("no beat");
  Mns *n = new Mns(); n->go(MODE_NORMAL); bool on = n->mem->m[LOCATION_FLAGS] & 1; byte seq = 0;
  unsigned long last = 0; env::now = sx_u64("boot");
  for (int s = 0; s < steps; s++)
  {
    int op = commands ? sx_fork(sx_range("op", 0, 3)) : 0; unsigned nn = n->nn;
    n->rec->clear();
    if (op == 0) { env::now += commands ? sx_u16("dt") : sx_u64("dt"); n->poll(); }
    else if (op == 1) { on = sx_fork(sx_bool("on")); n->receive(M(OPC_MODE, hi(nn), lo(nn), on ? MODE_HEARTBEAT_ON : MODE_HEARTBEAT_OFF)); sx_assert((n->mem->m[LOCATION_FLAGS] & 1) == on && n->conf->heartbeat == on, "the heartbeat setting is stored"); }
    else if (op == 2) { if (n->mode == MODE_NORMAL) { n->mode = MODE_SETUP; n->ctl->putAction(ACT_RENEGOTIATE); n->drain(); } else { n->mode = MODE_NORMAL; n->receive(M(OPC_RQNN)); } }
    else { env::now += 5000; n->poll(); }
    int want = 0; if (on && n->mode == MODE_NORMAL && env::now - last > 5000) { want = 1; last = env::now; }
    if (want) sx_cover("beat"); else sx_cover("no beat");
    sx_assert(n->rec->count(M(OPC_HEARTB, hi(nn), lo(nn), seq, 0, 0)) == want, "a heartbeat with the next sequence number exactly when more than five seconds have passed");
    int any = 0; for (int i = 0; i < n->rec->n; i++) any += n->rec->out[i].d[0] == OPC_HEARTB;
    sx_assert(any == want, "no other heartbeat");
    seq += want;
  }
  // and the setting survives a restart
  env::now = 0; Mns *k = new Mns(); memcpy(k->mem->m, n->mem->m, 10); k->start(MAKE(Controller, k->conf, {k->mns, k->rec}));
  env::now = sx_u64("after"); k->poll();
  sx_assert(k->rec->n == (on && env::now > 5000 ? 1 : 0), "the heartbeat setting survives a restart");
}
CASE(C18_polls) { beats(3, false); }
// @case tier=thorough cost=100
CASE(C18_polls_5) { beats(5, false); }
// @case cost=40
CASE(C18_commands) { beats(3, true); }
// @case tier=thorough cost=100
CASE(C18_commands_5) { beats(5, true); }
CASE(C18_uninitialised)
{
  Mns *n = new Mns(); n->go(MODE_UNINITIALISED); int op = sx_fork(sx_range("op", 0, 1)); if (op) n->change();
  n->rec->clear(); unsigned nn = n->nn;
  n->receive(M(OPC_MODE, hi(nn), lo(nn), MODE_HEARTBEAT_ON)); env::now = sx_u64("t"); n->poll();
  sx_assert(n->rec->n == 0, "no heartbeat while uninitialised or in setup");
  sx_assert(n->mem->m[LOCATION_FLAGS] & 1, "but the setting is stored");
}
CASE(C18_other_node)
{
  Mns *n = new Mns(); n->go(MODE_NORMAL); bool on = n->conf->heartbeat; Msg m = symMsg(4); m.d[0] = OPC_MODE; sx_assume(m.d[1] * 256u + m.d[2] != n->nn);
  n->receive(m); env::now = sx_u64("t"); n->poll();
  sx_assert(n->rec->n == (on && env::now > 5000), "the heartbeat setting of this node is not changed by a command for another");
}
// the sequence number runs through all values and wraps
CASE(C18_sequence)
{
  Mns *n = new Mns(); n->go(MODE_NORMAL); sx_assume(n->conf->heartbeat); n->mem->m[LOCATION_FLAGS] = 1; unsigned nn = n->nn;
  n->receive(M(OPC_MODE, hi(nn), lo(nn), MODE_HEARTBEAT_ON));
  for (int i = 0; i < 300; i++)
  {
    env::now += 5000; n->rec->clear(); n->poll(); sx_assert(n->rec->n == 0, "not after exactly five seconds");
    env::now += 1; n->poll(); sx_assert(only(*n->rec, M(OPC_HEARTB, hi(nn), lo(nn), i & 255, 0, 0)), "sequence numbers are consecutive modulo 256");
  }
}
