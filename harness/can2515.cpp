// CAN2515 driver at the interface of the ACAN2515 library: C04.
// @source CAN2515.cpp
#include <Arduino.h>
#include <SPI.h>
#include <Streaming.h>
#include "CAN2515.h"
#include "arduino.h"
#include "sx.h"
using namespace VLCB;

// The chip: a queue of received frames, a log of frames handed over, and a symbolic accept/refuse decision per frame.
namespace chip {
  CANMessage rx[8]; int nrx, rxPos; CANMessage tx[8]; int ntx; bool accept[8]; int begun, ended, polled, isrs; bool ok; uint8_t rxErr, txErr, flags; void (*handler)(); uint8_t intPin, csPin; SPIClass *spi;
  unsigned long osc; unsigned int rate; int rxSize, txSize; ACAN2515 *current;
}
ACAN2515Settings::ACAN2515Settings(unsigned long o, unsigned int r) { chip::osc = o; chip::rate = r; }
ACAN2515::ACAN2515(uint8_t cs, SPIClass &s, uint8_t i) { chip::current = this; chip::spi = &s; chip::csPin = cs; chip::intPin = i; }
unsigned short ACAN2515::begin(const ACAN2515Settings &s, void (*isr)()) { chip::begun++; chip::handler = isr; chip::rxSize = s.mReceiveBufferSize; chip::txSize = s.mTransmitBuffer0Size; return chip::ok ? 0 : sx_range("error", 1, 255); }
void ACAN2515::isr() { sx_assert(this == chip::current, "interrupts reach the chip in use"); chip::isrs++; }
void ACAN2515::poll() { chip::polled++; }
bool ACAN2515::available() { return chip::rxPos < chip::nrx; }
void ACAN2515::receive(CANMessage &m) { sx_assert(chip::rxPos < chip::nrx, "only waiting frames are fetched"); m = chip::rx[chip::rxPos++]; }
bool ACAN2515::tryToSend(const CANMessage &m) { sx_assert(chip::ntx < 8, "frames handed over once"); chip::tx[chip::ntx] = m; return chip::accept[chip::ntx++]; }
void ACAN2515::end() { chip::ended++; }
uint8_t ACAN2515::receiveErrorCounter() { return chip::rxErr; }
uint8_t ACAN2515::transmitErrorCounter() { return chip::txErr; }
uint8_t ACAN2515::errorFlagRegister() { return chip::flags; }

static CANMessage symMessage() { CANMessage m; m.id = sx_u32("id"); m.ext = sx_bool("ext"); m.rtr = sx_bool("rtr"); m.len = sx_u8("len"); sx_assume(m.len <= 8); m.len = sx_fork(m.len); for (int i = 0; i < 8; i++) m.data[i] = sx_u8("data"); return m; }
static CAN2515 *started(bool poll) { chip::ok = true; CAN2515 *c = new CAN2515; bool r = c->begin(poll); sx_assert(r, "started"); return c; }
template <class A, class B> static bool sameFrame(const A &a, const B &b, int len) { bool d = true; for (int i = 0; i < len; i++) d = d & (a.data[i] == b.data[i]); return (a.id == b.id) & (a.ext == b.ext) & (a.rtr == b.rtr) & (a.len == b.len) & d; }
static void receiveOne(CAN2515 *c, unsigned before)
{
  chip::rxPos = 0; chip::nrx = 1; CANMessage m = symMessage(); chip::rx[0] = m;
  sx_assert(c->available(), "a waiting frame is available"); CANFrame f = c->getNextCanFrame(); sx_assert(chip::rxPos == 1, "fetched once");
  sx_assert(sameFrame(f, m, m.len), "the received frame is the one on the bus"); sx_assert(!c->available(), "nothing left"); sx_assert(c->receiveCounter() == before + 1, "one more received frame");
}
static void sendOne(CAN2515 *c, unsigned before)
{
  chip::ntx = 0; chip::accept[0] = sx_fork(sx_bool("accept")); CANMessage m = symMessage(); CANFrame f; f.id = m.id; f.ext = m.ext; f.rtr = m.rtr; f.len = m.len; for (int i = 0; i < 8; i++) f.data[i] = m.data[i];
  bool r = c->sendCanFrame(&f); sx_assert(r == chip::accept[0], "the result is the chip's"); sx_assert(chip::ntx == 1, "handed over once"); sx_assert(sameFrame(chip::tx[0], m, m.len), "the frame handed over is the one given"); sx_assert(sameFrame(f, m, m.len), "the caller's frame is untouched");
  sx_assert(c->transmitCounter() == before + chip::accept[0], "one more sent frame exactly when accepted");
}
CASE(C04_receive) { CAN2515 *c = started(sx_fork(sx_bool("poll"))); receiveOne(c, 0); sx_assert(c->transmitCounter() == 0, "nothing sent"); }
CASE(C04_send) { CAN2515 *c = started(sx_fork(sx_bool("poll"))); sendOne(c, 0); sx_assert(c->receiveCounter() == 0, "nothing received"); }
static void sequence(int steps)
{
  CAN2515 *c = started(sx_fork(sx_bool("poll"))); unsigned rx = 0, tx = 0;
  for (int s = 0; s < steps; s++)
  {
    if (sx_fork(sx_bool("send")))
    {
      chip::ntx = 0; chip::accept[0] = sx_fork(sx_bool("accept")); CANFrame f; f.id = sx_u32("id"); f.ext = sx_bool("ext"); f.rtr = sx_bool("rtr"); f.len = 2; f.data[0] = sx_u8("d"); f.data[1] = sx_u8("d"); CANFrame g = f;
      sx_assert(c->sendCanFrame(&f) == chip::accept[0], "the result is the chip's"); sx_assert(chip::ntx == 1 && sameFrame(chip::tx[0], g, 2), "the frame handed over is the one given"); tx += chip::accept[0];
    }
    else
    {
      chip::rxPos = 0; chip::nrx = 1; CANMessage &m = chip::rx[0]; m.id = sx_u32("id"); m.ext = sx_bool("ext"); m.rtr = sx_bool("rtr"); m.len = 3; for (int i = 0; i < 3; i++) m.data[i] = sx_u8("d");
      sx_assert(c->available(), "a waiting frame is available"); CANFrame f = c->getNextCanFrame(); sx_assert(sameFrame(f, m, 3) && !c->available(), "the received frame is the one on the bus"); rx++;
    }
    sx_assert(c->receiveCounter() == rx && c->transmitCounter() == tx, "counters tell the frames received and accepted");
  }
}
CASE(C04_sequence_4) { sequence(4); }
// @case tier=thorough cost=30
CASE(C04_sequence_7) { sequence(7); }
// queue of several received frames keeps its order
CASE(C04_order)
{
  CAN2515 *c = started(false); int n = sx_fork(sx_range("n", 0, 5)); chip::nrx = n; chip::rxPos = 0; for (int i = 0; i < n; i++) { CANMessage &m = chip::rx[i]; m.id = sx_u32("id"); m.ext = sx_bool("ext"); m.rtr = sx_bool("rtr"); m.len = i; for (int j = 0; j < i; j++) m.data[j] = sx_u8("d"); }
  for (int i = 0; i < n; i++) { sx_assert(c->available(), "available while frames wait"); CANFrame f = c->getNextCanFrame(); sx_assert(sameFrame(f, chip::rx[i], i), "in the order received"); }
  sx_assert(!c->available() && c->receiveCounter() == (unsigned)n, "all received frames counted");
}
// error status is the chip's
CASE(C04_errors) { CAN2515 *c = started(false); chip::rxErr = sx_u8("r"); chip::txErr = sx_u8("t"); chip::flags = sx_u8("f"); sx_assert(c->receiveErrorCounter() == chip::rxErr && c->transmitErrorCounter() == chip::txErr && c->errorStatus() == chip::flags, "error counters and status are the chip's"); }
// counters beyond one byte
CASE(C04_many)
{
  CAN2515 *c = started(false); CANFrame f; f.id = 5; f.ext = f.rtr = false; f.len = 0; chip::accept[0] = true;
  for (int i = 0; i < 300; i++) { chip::ntx = 0; c->sendCanFrame(&f); chip::rxPos = 0; chip::nrx = 1; chip::rx[0].len = 0; c->getNextCanFrame(); }
  sx_assert(c->receiveCounter() == 300 && c->transmitCounter() == 300, "every frame is counted");
}
// start: the chip is configured for the bus, and its refusal is reported; received interrupts reach the chip object
CASE(C04_begin)
{
  chip::ok = sx_fork(sx_bool("ok")); bool poll = sx_fork(sx_bool("poll")); CAN2515 *c = new CAN2515; uint32_t osc = sx_u32("osc"); byte nr = sx_u8("nr"), nt = sx_u8("nt"), cs = sx_u8("cs"), irq = sx_u8("irq");
  c->setOscFreq(osc); c->setNumBuffers(nr, nt); c->setPins(cs, irq); SPIClass other; bool custom = sx_fork(sx_bool("custom")); bool r = custom ? c->begin(poll, other) : c->begin(poll); sx_assert(chip::spi == (custom ? &other : &SPI), "on the given SPI bus");
  sx_assert(r == chip::ok && chip::begun == 1, "the result tells whether the chip started"); sx_assert(chip::osc == osc && chip::rate == 125000 && chip::rxSize == nr && chip::txSize == nt && chip::csPin == cs, "configured as set");
  sx_assert((chip::handler == nullptr) == poll && chip::intPin == (poll ? 255 : irq), "interrupts are used unless polling"); if (!poll) { chip::handler(); sx_assert(chip::isrs == 1, "the interrupt reaches the driver"); }
}
CASE(C04_poll) { bool poll = sx_fork(sx_bool("poll")); CAN2515 *c = started(poll); int n = sx_fork(sx_range("n", 1, 3)); for (int i = 0; i < n; i++) c->available(); sx_assert(chip::polled == (poll ? n : 0), "the chip is polled exactly in polling mode"); }
CASE(C04_reset) { bool poll = sx_fork(sx_bool("poll")); CAN2515 *c = started(poll); sendOne(c, 0); c->reset(); sx_assert(chip::begun == 2 && chip::ended == 1, "restarted"); sx_assert(c->transmitCounter() == 0 && c->receiveCounter() == 0, "counting starts again"); chip::nrx = 0; chip::polled = 0; c->available(); sx_assert((chip::handler == nullptr) == poll && chip::polled == poll, "a reset keeps the configured reception mode"); sendOne(c, 0); receiveOne(c, 0); }

CASE(C04_reset_custom)
{
  chip::ok = true; bool poll = sx_fork(sx_bool("poll")); CAN2515 *c = new CAN2515; static SPIClass other; uint32_t osc = sx_u32("osc"); byte nr = sx_u8("nr"), nt = sx_u8("nt"), cs = sx_u8("cs"), irq = sx_u8("irq");
  c->setOscFreq(osc); c->setNumBuffers(nr, nt); c->setPins(cs, irq); c->begin(poll, other); chip::spi = nullptr; chip::osc = chip::rate = chip::rxSize = chip::txSize = 0; chip::csPin = ~cs;
  int n = sx_fork(sx_range("resets", 1, 2)); for (int i = 0; i < n; i++) { chip::spi = nullptr; c->reset(); if (!poll) chip::handler(); }
  sx_assert(chip::spi == &other, "a reset stays on the SPI bus that was given"); sx_assert(chip::osc == osc && chip::rate == 125000 && chip::rxSize == nr && chip::txSize == nt && chip::csPin == cs && chip::intPin == (poll ? 255 : irq), "a reset keeps the configuration");
}
