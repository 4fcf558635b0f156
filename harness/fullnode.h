// Nodes made of several of the real services.
#pragma once
#include "node.h"
#include "MinimumNodeServiceWithDiagnostics.h"
#include "CanServiceWithDiagnostics.h"
#include "NodeVariableService.h"
#include "EventTeachingServiceWithDiagnostics.h"
#include "EventConsumerServiceWithDiagnostics.h"
#include "EventProducerServiceWithDiagnostics.h"
#include "ConsumeOwnEventsService.h"
#include "bus.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }

// a user interface or another service that is not listed
struct Hidden : Service
{
  VlcbServiceTypes getServiceID() const { return (VlcbServiceTypes)0; }
  byte getServiceVersionID() const { return 7; }
  void process(const Action *) {}
};
// what the application's event handlers were called with
struct Calls { int n; byte index[4]; Msg m[4]; void add(byte ix, const VlcbMessage *v) { if (n < 4) { index[n] = ix; m[n].len = v->len; for (int i = 0; i < 8; i++) m[n].d[i] = i < v->len ? v->data[i] : 0; } n++; } };
static Calls consumed, requested;
static void onEvent(byte ix, const VlcbMessage *v) { consumed.add(ix, v); }
static void onRequest(byte ix, const VlcbMessage *v) { requested.add(ix, v); }

enum Kind { PLAIN, DIAG, MIXED };
struct FullNode : Node
{
  MinimumNodeService *mns; CanService *can; NodeVariableService *nv; EventTeachingService *ets; EventConsumerService *cons; EventProducerService *prod; Bus *bus; unsigned nn;
  Service *list[10]; int services;
  FullNode(unsigned nvs, unsigned events, unsigned evs) : Node(10 + nvs + events * (4 + evs)) { geometry(nvs, events, evs); consumed.n = requested.n = 0; }
  void go(Kind kind = PLAIN)
  {
    bus = MAKE(Bus); Service *h = MAKE(Hidden), *coe = MAKE(ConsumeOwnEventsService); nv = MAKE(NodeVariableService);
    Controller *c; services = 0;
    if (kind == PLAIN)
    {
      mns = MAKE(MinimumNodeService); can = MAKE(CanService, bus); ets = MAKE(EventTeachingService); cons = MAKE(EventConsumerService); prod = MAKE(EventProducerService);
      c = MAKE(Controller, conf, {mns, can, nv, ets, cons, prod, rec});
      Service *l[] = {mns, can, nv, ets, cons, prod, rec}; for (Service *s : l) list[services++] = s;
    }
    else if (kind == DIAG)
    {
      mns = MAKE(MinimumNodeServiceWithDiagnostics); can = MAKE(CanServiceWithDiagnostics, bus); ets = MAKE(EventTeachingServiceWithDiagnostics); cons = MAKE(EventConsumerServiceWithDiagnostics); prod = MAKE(EventProducerServiceWithDiagnostics);
      c = MAKE(Controller, conf, {mns, h, can, nv, cons, ets, prod, rec});
      Service *l[] = {mns, h, can, nv, cons, ets, prod, rec}; for (Service *s : l) list[services++] = s;
    }
    else
    {
      mns = MAKE(MinimumNodeService); can = MAKE(CanService, bus); ets = MAKE(EventTeachingService); cons = MAKE(EventConsumerService); prod = nullptr;
      c = MAKE(Controller, conf, {can, cons, coe, h, ets, mns, rec});
      Service *l[] = {can, cons, coe, h, ets, mns, rec}; for (Service *s : l) list[services++] = s;
    }
    cons->setEventHandler(onEvent); if (prod) prod->setRequestEventHandler(onRequest);
    start(c); nn = conf->nodeNum; bus->nout = 0;
  }
  byte flags(bool normal, bool learn) { byte f = 0; for (int i = 0; i < services; i++) switch (list[i]->getServiceID()) { case SERVICE_ID_MNS: f |= 64; break; case SERVICE_ID_CONSUMER: f |= 1; break; case SERVICE_ID_PRODUCER: f |= 2; break; case SERVICE_ID_CONSUME_OWN_EVENTS: f |= 16; break; default: break; } return f | (normal ? 4 : 0) | (learn ? 32 : 0); }
  byte *ev(unsigned i) { return mem->m + evAddr(i); }
};
