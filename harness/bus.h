// CAN transport whose received frames are scripted and whose sent frames are recorded.
#pragma once
#include "CanTransport.h"
struct Bus : VLCB::CanTransport
{
  VLCB::CANFrame in[8]; int nin, inPos; VLCB::CANFrame out[80]; int nout;
  unsigned rx, tx, rxe, txe, st; int resets;
  void reset() { resets++; }
  unsigned int receiveCounter() { return rx; }
  unsigned int transmitCounter() { return tx; }
  unsigned int receiveErrorCounter() { return rxe; }
  unsigned int transmitErrorCounter() { return txe; }
  unsigned int errorStatus() { return st; }
  bool available() { return inPos < nin; }
  VLCB::CANFrame getNextCanFrame() { sx_assert(inPos < nin, "a frame is fetched only when one is available"); return in[inPos++]; }
  bool sendCanFrame(VLCB::CANFrame *f) { sx_assert(nout < 80, "too many frames sent"); sx_assert(f->len <= 8, "a sent frame has at most 8 bytes"); out[nout++] = *f; return true; }
  void put(const VLCB::CANFrame &f) { in[nin++] = f; }
};
static inline VLCB::CANFrame symCanFrame()
{
  VLCB::CANFrame f; f.ext = sx_bool("ext"); f.rtr = sx_bool("rtr"); f.id = sx_u32("id"); f.len = sx_range("len", 0, 8);
  sx_assume(f.id <= (f.ext ? 0x1FFFFFFFu : 0x7FFu));
  for (int i = 0; i < 8; i++) f.data[i] = sx_u8("data");
  return f;
}
