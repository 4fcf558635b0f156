// GridConnect over serial: C03.
// @source GridConnect.cpp
// @source SerialGC.cpp
#include <Arduino.h>
#include "SerialGC.h"
#include "arduino.h"
#include "gctext.h"
#include "sx.h"
using namespace VLCB;

static char upper(char c) { return ((c >= 'a') & (c <= 'z')) ? c - 32 : c; }
struct Port
{
  SerialGC *s; unsigned received, errors;
  Port() { s = new SerialGC(Serial); env::serialInLen = env::serialInPos = 0; s->begin(); received = s->receiveCounter(); errors = s->receiveErrorCounter(); sx_assert(received == 0 && errors == 0 && s->transmitCounter() == 0 && s->transmitErrorCounter() == 0, "counters start at zero"); }
  // one received character
  bool feed(char c) { env::serialIn[0] = c; env::serialInPos = 0; env::serialInLen = 1; bool r = s->available(); sx_assert(env::serialInPos == 1, "a waiting character is consumed"); return r; }
  void counts() { sx_assert(s->receiveCounter() == received, "received counter tells the completed messages"); sx_assert(s->receiveErrorCounter() == errors, "error counter tells the malformed messages"); }
  void frame(const CANFrame &w)
  {
    CANFrame f = s->getNextCanFrame(); bool d = true; for (int i = 0; i < 8; i++) d = d & ((i >= w.len) | (f.data[i] == w.data[i]));
    sx_assert((f.id == w.id) & (f.ext == w.ext) & (f.rtr == w.rtr) & (f.len == w.len) & d, "the frame is what the text denotes");
  }
  // a complete message whose characters between ':' and ';' are t[1..len-2]
  void message(const char *t, int len)
  {
    for (int i = 0; i < len - 1; i++) sx_assert(!feed(t[i]), "nothing is announced before the end of a message");
    counts();
    char *u = new char[len + 1]; for (int i = 0; i < len; i++) u[i] = upper(t[i]); u[len] = 0;
    CANFrame w; bool good = refDecode(u, len, w), got = feed(t[len - 1]);
    sx_assert(got == good, "announced exactly when well-formed");
    received++; errors += !good; counts();
    if (good) { sx_cover("well-formed"); frame(w); } else sx_cover("malformed");
    delete[] u;
  }
};
static char plain() { char c = (char)sx_u8("c"); sx_assume((c != ':') & (c != ';') & (c != 0)); return c; }
// a text that starts and ends properly, otherwise arbitrary
static void arbitrary(Port &p, int lo, int hi) { int n = sx_fork(sx_range("len", lo, hi)); char *t = new char[n]; t[0] = ':'; for (int i = 1; i < n - 1; i++) t[i] = plain(); t[n - 1] = ';'; p.message(t, n); delete[] t; }
static int hexd(char *t) { bool l = sx_bool("case"); char c = (char)sx_u8("hex"); sx_assume(isHex(upper(c))); (void)l; *t = c; return 1; }
// any well-formed message, in either case
static void wellFormed(Port &p, bool full)
{
  char t[32]; int n = 0; bool x = full ? sx_fork(sx_bool("ext")) : false; t[n++] = ':';
  char k = (char)sx_u8("kind"); sx_assume(upper(k) == (x ? 'X' : 'S')); t[n++] = k;
  for (int i = 0; i < (x ? 8 : 4); i++) n += hexd(t + n);
  char r = (char)sx_u8("rtr"); sx_assume((upper(r) == 'N') | (upper(r) == 'R')); t[n++] = r;
  int data = full ? sx_fork(sx_range("data", 0, 8)) : 1; for (int i = 0; i < 2 * data; i++) n += hexd(t + n);
  t[n++] = ';'; p.message(t, n);
}
// every text of up to 28 characters
// @case cost=20
CASE(C03_message_2_13) { sx_need("well-formed"); sx_need("malformed"); Port p; arbitrary(p, 2, 13); }
// @case cost=20
CASE(C03_message_14_19) { sx_need("well-formed"); sx_need("malformed"); Port p; arbitrary(p, 14, 19); }
// @case cost=20
CASE(C03_message_20_24) { sx_need("well-formed"); sx_need("malformed"); Port p; arbitrary(p, 20, 24); }
// @case cost=20
CASE(C03_message_25_28) { sx_need("well-formed"); sx_need("malformed"); Port p; arbitrary(p, 25, 28); }
// a malformed or well-formed message does not influence the next one
// @case cost=30
CASE(C03_two_messages) { sx_need("well-formed"); sx_need("malformed"); Port p; arbitrary(p, 2, 11); wellFormed(p, false); }
// @case cost=30
CASE(C03_two_good) { sx_need("well-formed"); Port p; wellFormed(p, false); wellFormed(p, true); }
// any characters before a message
static void noise(int n)
{
  sx_need("well-formed"); Port p; bool open = false; int len = 0;
  for (int i = 0; i < n; i++)
  {
    char c = (char)sx_u8("noise"); sx_assume(c != 0); int cls = sx_fork((uint8_t)(c == ':' ? 1 : c == ';' ? 2 : 0));
    bool got = p.feed(c); sx_assert(!got, "noise is not announced");     // shorter than any well-formed message
    if (cls == 1) { open = true; len = 1; } else if (open) { len++; if (cls == 2) { p.received++; p.errors++; open = false; } }
    p.counts();
  }
  wellFormed(p, true);
}
CASE(C03_noise_0) { noise(0); }
CASE(C03_noise_3) { noise(3); }
// @case cost=30
CASE(C03_noise_5) { noise(5); }
// @case cost=100 tier=thorough
CASE(C03_noise_7) { noise(7); }
// an unfinished or oversized text, any characters, then possibly ';', then a message
static void oversized(int lo, int hi, bool end)
{
  sx_need("well-formed"); Port p; int n = sx_fork(sx_range("n", lo, hi)); bool open = sx_fork(sx_bool("start"));
  if (open) sx_assert(!p.feed(':'), "not announced"); else p.feed(plain());
  for (int i = 0; i < n; i++) sx_assert(!p.feed(plain()), "not announced");
  if (end)
  {
    sx_assert(!p.feed(';'), "a text that is too long, or has no beginning, is not announced");
    unsigned r = p.s->receiveCounter(), e = p.s->receiveErrorCounter(); sx_assert(r == e && r <= 1 && (open || r == 0), "nor counted as received without error");
    p.received = r; p.errors = e;
  }
  p.counts(); wellFormed(p, false);
}
// @case cost=20
CASE(C03_unfinished) { oversized(0, 40, false); }
// @case cost=20
CASE(C03_oversized) { oversized(27, 70, true); }
CASE(C03_no_start) { sx_need("well-formed"); Port p; int n = sx_fork(sx_range("n", 0, 12)); for (int i = 0; i < n; i++) sx_assert(!p.feed(plain()), "not announced"); sx_assert(!p.feed(';'), "no message without a start"); p.counts(); wellFormed(p, false); }
// without a waiting character nothing happens
CASE(C03_idle)
{
  Port p; char t[11] = ":S123"; for (int i = 0; t[i]; i++) p.feed(t[i]);
  env::serialInLen = env::serialInPos = 0; sx_assert(!p.s->available(), "nothing to announce"); sx_assert(!p.s->available(), "nothing to announce"); p.counts();
  sx_assert(!p.feed('4') && !p.feed('n') && p.feed(';'), "reception continues"); p.received++; p.counts(); CANFrame w; sx_assert(refDecode(":S1234N;", 8, w), "reference"); p.frame(w);
  env::serialInLen = env::serialInPos = 0; sx_assert(!p.s->available(), "announced once"); p.counts();
}
// sending
static void send(bool valid)
{
  Port p; CANFrame f; f.ext = sx_fork(sx_bool("ext")); f.rtr = sx_bool("rtr"); f.id = sx_u32("id"); f.len = sx_u8("len"); for (int i = 0; i < 8; i++) f.data[i] = sx_u8("data");
  bool fits = (f.len <= 8) & (f.id <= (f.ext ? 0x1FFFFFFFu : 0x7FFu)); sx_assume(fits == valid); if (valid) f.len = sx_fork(f.len);
  env::serialOutLen = 0; bool ok = p.s->sendCanFrame(&f);
  sx_assert(ok == valid, "a frame is sent exactly when it fits"); sx_assert(p.s->transmitCounter() == 1 && p.s->transmitErrorCounter() == !valid, "send counters");
  if (!valid) { sx_assert(env::serialOutLen == 0, "a frame that does not fit is not sent"); return; }
  f.rtr = sx_fork(f.rtr); char want[40]; int n = refText(f, want); sx_assert(env::serialOutLen == n, "the text of the frame, once"); bool same = true; for (int i = 0; i < n; i++) same = same & (env::serialOut[i] == want[i]); sx_assert(same, "a sent frame appears as its GridConnect text"); p.counts();
}
CASE(C03_send) { send(true); }
CASE(C03_send_refused) { send(false); }
// sending in the middle of a reception
CASE(C03_send_while_receiving)
{
  Port p; char t[13] = ":s1234nAB"; int at = sx_fork(sx_range("at", 0, 9)); CANFrame f; f.id = sx_range("id", 0, 127); f.ext = f.rtr = false; f.len = 1; f.data[0] = sx_u8("data");
  for (int i = 0; i < 9; i++) { if (i == at) sx_assert(p.s->sendCanFrame(&f), "sent"); p.feed(t[i]); } if (at == 9) p.s->sendCanFrame(&f);
  sx_assert(p.feed(';'), "announced"); p.received++; p.counts(); CANFrame w; sx_assert(refDecode(":S1234NAB;", 10, w), "reference"); p.frame(w);
}
// two ports receive independently
CASE(C03_two_ports)
{
  Port p; SerialGC *q = new SerialGC(env::otherPort); q->begin(); char t[] = ":S1234NAB;", u[] = ":S5678N;"; int i = 0, j = 0; 
  while (t[i] || u[j])
  {
    bool first = !u[j] || (t[i] && sx_fork(sx_bool("order")));
    if (first) { bool r = p.feed(t[i++]); sx_assert(r == !t[i], "first port announces its message"); }
    else { env::otherIn[0] = u[j++]; env::otherInPos = 0; env::otherInLen = 1; env::serialInLen = env::serialInPos = 0; bool r = q->available(); sx_assert(r == !u[j], "second port announces its message"); }
  }
  CANFrame w; refDecode(t, 10, w); p.frame(w); CANFrame f = q->getNextCanFrame(), v; refDecode(u, 8, v); sx_assert(f.id == v.id && f.len == 0, "each port delivers its own frame"); sx_assert(q->receiveCounter() == 1 && q->receiveErrorCounter() == 0, "counters of the second port"); p.received++; p.counts();
}
