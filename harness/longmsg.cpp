// Long messages: C27, C28 (single stream), C29, C30 (multiple streams).
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source LongMessageService.cpp
#include "node.h"
#include "LongMessageService.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }

// what the user's handler was given
struct Piece { unsigned len; byte stream, status; byte d[80]; };
static Piece got[40]; static int ngot;
static void handler(void *p, unsigned len, byte stream, byte status)
{
  sx_assert(ngot < 40, "too many handler calls"); Piece &g = got[ngot++]; g.len = len; g.stream = stream; g.status = status; sx_assert(len <= 80, "the handler is given no more than the receive buffer");
  for (unsigned i = 0; i < len && i < 80; i++) g.d[i] = ((byte *)p)[i];
}
static int longGot; static unsigned longLen[4]; static byte longStatus[4], longBytes[1400];
static void handlerLong(void *p, unsigned len, byte, byte status) { sx_assert(longGot < 4, "too many handler calls"); longLen[longGot] = len; longStatus[longGot] = status; if (len > 10) for (unsigned i = 0; i < len; i++) longBytes[i] = ((byte *)p)[i]; longGot++; }
template <class S> struct LmNode : Node
{
  S *svc; byte *buffer; unsigned size; byte *streams;
  LmNode() : Node(64) { geometry(0, 1, 0); regularSettings(mem, MODE_NORMAL); svc = MAKE(S); start(MAKE(Controller, conf, {svc, rec})); ngot = 0; buffer = nullptr; }
  // one poll by the sketch; at most one data fragment leaves per poll
  int poll() { rec->clear(); svc->process(); drain(); return rec->n; }
  bool send(const void *p, unsigned len, byte stream) { rec->clear(); bool r = svc->sendLongMessage(p, len, stream); drain(); return r; }
  void frame(byte stream, byte seq, byte a, byte b, byte c, byte d, byte e) { Msg m; m.len = 8; m.d[0] = OPC_DTXC; m.d[1] = stream; m.d[2] = seq; m.d[3] = a; m.d[4] = b; m.d[5] = c; m.d[6] = d; m.d[7] = e; receive(m); }
  void header(byte stream, unsigned len, unsigned crc = 0) { frame(stream, 0, len >> 8, len, crc >> 8, crc, 0); }
  // fragment k (from 0) of a message
  void fragment(byte stream, const byte *p, unsigned len, unsigned k) { byte v[5]; for (unsigned i = 0; i < 5; i++) v[i] = 5 * k + i < len ? p[5 * k + i] : 0; frame(stream, k + 1, v[0], v[1], v[2], v[3], v[4]); }
};
typedef LmNode<LongMessageService> Lite;
typedef LmNode<LongMessageServiceEx> Ex;
static byte *content(unsigned len) { byte *p = new byte[len]; for (unsigned i = 0; i < len; i++) p[i] = sx_u8("byte"); return p; }
static bool isHeader(const Msg &m, byte stream, unsigned len) { return (m.len == 8) & (m.d[0] == OPC_DTXC) & (m.d[1] == stream) & (m.d[2] == 0) & (m.d[3] == (len >> 8)) & (m.d[4] == (len & 255)) & (m.d[7] == 0); }
static bool isFragment(const Msg &m, byte stream, unsigned k, const byte *p, unsigned len)
{
  bool ok = (m.len == 8) & (m.d[0] == OPC_DTXC) & (m.d[1] == stream) & (m.d[2] == (byte)(k + 1));
  for (unsigned i = 0; i < 5; i++) ok = ok & (m.d[3 + i] == (5 * k + i < len ? p[5 * k + i] : 0));
  return ok;
}

// --- C27 ---------------------------------------------------------------------------------------
static void sending(unsigned len, int polls)
{
  Lite *n = new Lite(); byte delay = sx_u8("delay"); n->svc->setDelay(delay); env::now = sx_u64("clock"); byte *p = content(len); byte stream = sx_u8("stream"); unsigned frags = (len + 4) / 5, sent = 0;
  sx_assert(!n->svc->is_sending(), "idle at first"); sx_assert(n->poll() == 0, "nothing is sent unasked");
  sx_assert(n->send(p, len, stream), "accepted"); sx_assert(n->rec->n == 1 && isHeader(n->rec->out[0], stream, len), "the header with stream and length"); sx_assert(n->rec->out[0].d[5] == 0 && n->rec->out[0].d[6] == 0, "no checksum");
  unsigned long headerAt = env::now, last = 0;
  for (int i = 0; i < polls; i++)
  {
    env::now += sx_u16("dt"); sx_assert(n->svc->is_sending() == (sent < frags), "sending until everything is sent");
    int k = n->poll(); sx_assert(k == 0 || (k == 1 && sent < frags), "at most one fragment at a time, and no more than the message has");
    bool due = sent < frags && (sent ? env::now - last >= delay : (env::now - headerAt >= 2u * delay && env::now >= delay));
    if (k) { sx_assert(sent == 0 || env::now - last >= delay, "fragments are at least the delay apart"); sx_assert(isFragment(n->rec->out[0], stream, sent, p, len), "the next five bytes, zero padded, in order"); sent++; last = env::now; }
    else sx_assert(!due, "a fragment is sent as soon as it is due");
  }
  sx_assert(n->svc->is_sending() == (sent < frags), "sending until everything is sent");
  if (sent == frags) sx_cover("all sent");
}
CASE(C27_send_0_6) { sx_need("all sent"); sending(sx_fork(sx_range("len", 0, 6)), 3); }
// @case merge=0
CASE(C27_send_7_12) { sx_need("all sent"); sending(sx_fork(sx_range("len", 7, 12)), 5); }
// @case merge=0 cost=60
CASE(C27_send_13_23) { sx_need("all sent"); sending(sx_fork(sx_range("len", 13, 23)), 7); }
// messages longer than the sequence number counts
static void longSend(unsigned len)
{
  Lite *n = new Lite(); n->svc->setDelay(0); byte *p = new byte[len]; for (unsigned i = 0; i < len; i++) p[i] = i * 7 + (i >> 8); unsigned at[4] = {0, 1274, 1275, len - 1}; for (int i = 0; i < 4; i++) p[at[i]] = sx_u8("byte");
  byte stream = sx_u8("stream"); sx_assert(n->send(p, len, stream) && n->rec->n == 1 && isHeader(n->rec->out[0], stream, len), "the header with stream and length");
  unsigned frags = (len + 4) / 5; for (unsigned k = 0; k < frags; k++) { sx_assert(n->svc->is_sending(), "sending until everything is sent"); int c = n->poll(); sx_assert(c == 1 && isFragment(n->rec->out[0], stream, k, p, len), "the next five bytes in order"); }
  sx_assert(!n->svc->is_sending() && n->poll() == 0, "ends when everything is sent");
}
CASE(C27_send_1301) { longSend(1301); }
CASE(C27_send_2600) { longSend(2600); }
// @case tier=thorough cost=60
CASE(C27_send_65535) { longSend(65535); }
// a second message is refused while one is in progress, and accepted afterwards
CASE(C27_busy)
{
  Lite *n = new Lite(); n->svc->setDelay(0); unsigned len = sx_fork(sx_range("len", 1, 12)), frags = (len + 4) / 5; byte *p = content(len), *q = content(6); byte s = sx_u8("s"), t = sx_u8("t"); unsigned at = sx_fork(sx_range("at", 0, 3)); sx_assume(at <= frags);
  sx_assert(n->send(p, len, s), "accepted");
  for (unsigned k = 0; k <= frags; k++)
  {
    if (k == at)
    {
      bool r = n->send(q, 6, t); sx_assert(r == (k == frags), "a second message is refused exactly while one is in progress");
      if (r) { sx_assert(n->rec->n == 1 && isHeader(n->rec->out[0], t, 6), "the header of the next message"); for (int j = 0; j < 2; j++) { int c = n->poll(); sx_assert(c == 1 && isFragment(n->rec->out[0], t, j, q, 6), "the next message is sent completely"); } sx_assert(!n->svc->is_sending() && n->poll() == 0, "ends when everything is sent"); return; }
      sx_assert(n->rec->n == 0, "a refused message sends nothing");
    }
    if (k < frags) { int c = n->poll(); sx_assert(c == 1 && isFragment(n->rec->out[0], s, k, p, len), "the message in progress is not disturbed"); }
  }
  sx_assert(!n->svc->is_sending() && n->poll() == 0, "ends when everything is sent");
}
// any messages one after another: each is sent completely, whatever was sent before it
CASE(C27_one_after_another)
{
  Lite *n = new Lite(); n->svc->setDelay(0); unsigned prev = 0; sx_need("empty after another");
  for (int i = 0; i < 3; i++)
  {
    unsigned len = sx_fork(sx_range("len", 0, 12)), frags = (len + 4) / 5; byte *p = content(len); byte s = sx_u8("s"); if (len == 0 && prev > 0) sx_cover("empty after another"); prev = len;
    sx_assert(n->send(p, len, s) && n->rec->n == 1 && isHeader(n->rec->out[0], s, len), "the header with stream and length");
    for (unsigned k = 0; k < frags; k++) { sx_assert(n->svc->is_sending(), "sending until everything is sent"); int c = n->poll(); sx_assert(c == 1 && isFragment(n->rec->out[0], s, k, p, len), "the next five bytes in order"); }
    sx_assert(!n->svc->is_sending() && n->poll() == 0, "ends when everything is sent");
  }
}
// receiving at the same time does not disturb sending
CASE(C27_while_receiving)
{
  Lite *n = new Lite(); n->svc->setDelay(0); byte ids[1]; ids[0] = sx_u8("id"); byte *buf = new byte[4]; n->svc->subscribe(ids, 1, buf, 4, handler); byte *p = content(11); byte s = sx_u8("s");
  sx_assert(n->send(p, 11, s), "accepted"); for (unsigned k = 0; k < 3; k++) { if (sx_fork(sx_bool("rx"))) { Msg m = symMsg(8); m.d[0] = OPC_DTXC; n->receive(m); } int c = n->poll(); sx_assert(c == 1 && isFragment(n->rec->out[0], s, k, p, 11), "the message in progress is not disturbed"); }
  sx_assert(!n->svc->is_sending() && n->poll() == 0, "ends when everything is sent");
}

// --- C28 ---------------------------------------------------------------------------------------
static Lite *receiver(unsigned size, byte &a, byte &b)
{
  Lite *n = new Lite(); n->buffer = new byte[size]; n->size = size; n->streams = new byte[2]; a = n->streams[0] = sx_u8("stream"); b = n->streams[1] = sx_u8("stream2"); env::now = sx_u64("clock");
  n->svc->subscribe(n->streams, 2, n->buffer, size, handler); return n;
}
// the pieces since `from` make up exactly the message
static void complete(const Lite *n, int from, byte stream, const byte *p, unsigned len)
{
  sx_assert(ngot > from, "the handler is told"); unsigned pos = 0;
  for (int i = from; i < ngot; i++)
  {
    Piece &g = got[i]; sx_assert(g.len <= n->size, "pieces fit the receive buffer"); sx_assert(g.stream == stream, "the stream is told"); sx_assert(g.status == (i == ngot - 1 ? LONG_MESSAGE_COMPLETE : LONG_MESSAGE_INCOMPLETE), "exactly the last piece completes the message");
    sx_assert(pos + g.len <= len, "no more bytes than the message"); bool ok = true; for (unsigned j = 0; j < g.len; j++) ok = ok & (g.d[j] == p[pos + j]); sx_assert(ok, "exactly the bytes sent, in order"); pos += g.len;
  }
  sx_assert(pos == len, "all bytes of the message");
}
static void foreign(Lite *n, byte stream) { Msg m = symMsg(8); m.d[0] = OPC_DTXC; sx_assume(m.d[1] != stream); int before = ngot; n->receive(m); sx_assert(ngot == before, "fragments of other streams are not reported"); }
static void message(Lite *n, byte stream, unsigned len, bool others)
{
  byte *p = content(len); int from = ngot; unsigned frags = (len + 4) / 5; n->header(stream, len);
  for (unsigned k = 0; k < frags; k++) { if (others && sx_fork(sx_bool("other"))) foreign(n, stream); n->svc->process(); if (k < frags) n->fragment(stream, p, len, k); }
  complete(n, from, stream, p, len); int c = ngot; n->svc->process(); env::now += sx_u32("later"); n->svc->process(); sx_assert(ngot == c, "nothing more after the end"); sx_assert(n->rec->n == 0, "reception sends nothing");
}
CASE(C28_receive_0_6) { byte a, b; unsigned size = sx_fork(sx_range("size", 1, 12)); Lite *n = receiver(size, a, b); message(n, sx_fork(sx_bool("second")) ? b : a, sx_fork(sx_range("len", 0, 6)), true); }
CASE(C28_receive_7_12) { byte a, b; unsigned size = sx_fork(sx_range("size", 1, 12)); Lite *n = receiver(size, a, b); message(n, a, sx_fork(sx_range("len", 7, 12)), true); }
CASE(C28_two_messages) { byte a, b; unsigned size = sx_fork(sx_range("size", 1, 7)); Lite *n = receiver(size, a, b); message(n, a, sx_fork(sx_range("len", 0, 6)), false); message(n, sx_fork(sx_bool("second")) ? b : a, sx_fork(sx_range("len", 0, 6)), false); }
// padding bytes of the last fragment are no part of the message
CASE(C28_padding)
{
  byte a, b; Lite *n = receiver(sx_fork(sx_range("size", 1, 6)), a, b); unsigned len = sx_fork(sx_range("len", 1, 5)); byte v[5]; for (int i = 0; i < 5; i++) v[i] = sx_u8("v"); n->header(a, len); n->frame(a, 1, v[0], v[1], v[2], v[3], v[4]); complete(n, 0, a, v, len);
}
// beyond the sequence number
static void longReceive(unsigned len)
{
  byte a, b; Lite *n = receiver(64, a, b); sx_assume(a != b); unsigned frags = (len + 4) / 5, pos = 0; byte *p = new byte[len]; for (unsigned i = 0; i < len; i++) p[i] = i * 7 + (i >> 8); unsigned at[4] = {0, 1274, 1275, len - 1}; for (int i = 0; i < 4; i++) p[at[i]] = sx_u8("byte"); n->header(a, len);
  for (unsigned k = 0; k < frags; k++)
  {
    ngot = 0; n->fragment(a, p, len, k); if (k == 255) n->frame(b, 0, 0, 9, 0, 0, 0);
    for (int i = 0; i < ngot; i++) { Piece &g = got[i]; sx_assert(g.stream == a && g.len <= 64 && pos + g.len <= len, "pieces fit"); bool ok = true; for (unsigned j = 0; j < g.len; j++) ok = ok & (g.d[j] == p[pos + j]); sx_assert(ok, "exactly the bytes sent, in order"); pos += g.len; sx_assert(g.status == (pos == len ? LONG_MESSAGE_COMPLETE : LONG_MESSAGE_INCOMPLETE), "exactly the last piece completes the message"); }
  }
  sx_assert(pos == len, "all bytes of the message"); ngot = 0; byte *q = content(3); n->header(b, 3); n->fragment(b, q, 3, 0); complete(n, 0, b, q, 3);
}
CASE(C28_long_1301) { longReceive(1301); }
CASE(C28_long_2600) { longReceive(2600); }
// @case tier=thorough cost=60
CASE(C28_long_65535) { longReceive(65535); }
// any single fault: altered sequence number, lost or duplicated fragment
CASE(C28_sequence)
{
  byte a, b; unsigned size = sx_fork(sx_range("size", 1, 12)); Lite *n = receiver(size, a, b); unsigned len = sx_fork(sx_range("len", 1, 12)), frags = (len + 4) / 5, at = sx_fork(sx_range("at", 0, 2)); sx_assume(at < frags); byte *p = content(len); n->header(a, len); for (unsigned k = 0; k < at; k++) n->fragment(a, p, len, k);
  int c = ngot; unsigned before = 0; for (int i = 0; i < c; i++) before += got[i].len; byte seq = sx_u8("seq"); sx_assume(seq != at + 1); byte v[5]; for (int i = 0; i < 5; i++) v[i] = sx_u8("v"); n->frame(a, seq, v[0], v[1], v[2], v[3], v[4]);
  sx_assert(ngot == c + 1 && got[c].status == LONG_MESSAGE_SEQUENCE_ERROR && got[c].stream == a, "a wrong sequence number ends the reception with a sequence error"); sx_assert(before + got[c].len == 5 * at, "with the bytes received so far");
  c = ngot; for (unsigned k = at; k < frags; k++) { n->fragment(a, p, len, k); n->svc->process(); } env::now += sx_u32("later"); n->svc->process(); sx_assert(ngot == c, "the rest of the failed message is ignored");
  message(n, sx_fork(sx_bool("second")) ? b : a, 7, false);
}
CASE(C28_lost)
{
  byte a, b; Lite *n = receiver(sx_fork(sx_range("size", 3, 8)), a, b); unsigned lost = sx_fork(sx_range("lost", 0, 1)); byte *p = content(12); n->header(a, 12); int errors = 0; for (unsigned k = 0; k < 3; k++) if (k != lost) n->fragment(a, p, 12, k);
  for (int i = 0; i < ngot; i++) { sx_assert(got[i].status == LONG_MESSAGE_INCOMPLETE || got[i].status == LONG_MESSAGE_SEQUENCE_ERROR, "never complete with a lost fragment"); errors += got[i].status == LONG_MESSAGE_SEQUENCE_ERROR; } sx_assert(errors == 1, "the error is told once"); ngot = 0; message(n, a, 7, false);
}
CASE(C28_duplicated)
{
  byte a, b; Lite *n = receiver(sx_fork(sx_range("size", 3, 8)), a, b); unsigned twice = sx_fork(sx_range("twice", 0, 2)); byte *p = content(12); n->header(a, 12); for (unsigned k = 0; k < 3; k++) { n->fragment(a, p, 12, k); if (k == twice) n->fragment(a, p, 12, k); }
  if (twice == 2) complete(n, 0, a, p, 12);
  else { int errors = 0; for (int i = 0; i < ngot; i++) { sx_assert(got[i].status == LONG_MESSAGE_INCOMPLETE || got[i].status == LONG_MESSAGE_SEQUENCE_ERROR, "never complete after a duplicate"); errors += got[i].status == LONG_MESSAGE_SEQUENCE_ERROR; } sx_assert(errors == 1, "the error is told once"); }
  ngot = 0; message(n, b, 7, false);
}
// timeout
CASE(C28_timeout)
{
  sx_need("timed out"); sx_need("in time");
  byte a, b; Lite *n = receiver(sx_fork(sx_range("size", 4, 6)), a, b); unsigned timeout = sx_u32("timeout"), at = sx_fork(sx_range("at", 0, 2)); sx_assume(timeout > 0); n->svc->setTimeout(timeout); byte *p = content(12); n->header(a, 12); for (unsigned k = 0; k < at; k++) n->fragment(a, p, 12, k);
  unsigned long t1 = sx_u32("wait"), t2 = sx_u32("wait2"); int c = ngot; unsigned before = 0; for (int i = 0; i < c; i++) before += got[i].len;
  env::now += t1; if (sx_fork(sx_bool("other"))) foreign(n, a); n->svc->process(); bool first = ngot > c; sx_assert(first == (t1 >= timeout), "the timeout is told exactly when the pause is that long");
  if (!first) { env::now += t2; n->svc->process(); sx_assert((ngot > c) == (t1 + t2 >= timeout), "the timeout is told exactly when the pause is that long, whatever other streams do"); }
  if (ngot > c)
  {
    sx_cover("timed out"); sx_assert(ngot == c + 1 && got[c].status == LONG_MESSAGE_TIMEOUT_ERROR && got[c].stream == a && before + got[c].len == 5 * at, "once, with the bytes received so far"); n->svc->process(); env::now += timeout; n->svc->process(); sx_assert(ngot == c + 1, "the timeout is told once");
    n->fragment(a, p, 12, at); sx_assert(ngot == c + 1, "the rest of the failed message is ignored"); message(n, sx_fork(sx_bool("second")) ? b : a, 6, false);
  }
  else { sx_cover("in time"); for (unsigned k = at; k < 3; k++) n->fragment(a, p, 12, k); complete(n, 0, a, p, 12); }
}
// each fragment restarts the timeout
CASE(C28_slow)
{
  byte a, b; Lite *n = receiver(20, a, b); unsigned timeout = sx_u32("timeout"); n->svc->setTimeout(timeout); byte *p = content(12); n->header(a, 12); for (unsigned k = 0; k < 3; k++) { unsigned d = sx_u32("pause"); sx_assume(d < timeout); env::now += d; n->svc->process(); n->fragment(a, p, 12, k); } complete(n, 0, a, p, 12);
}
// not for us: other streams, non-zero flags, continuation without a header
CASE(C28_ignored)
{
  byte a, b; Lite *n = receiver(3, a, b); Msg m = symMsg(8); m.d[0] = OPC_DTXC; sx_assume((m.d[2] != 0) | (m.d[7] != 0) | ((m.d[1] != a) & (m.d[1] != b))); n->receive(m); Msg k = symMsg(8); k.d[0] = OPC_DTXC; sx_assume(k.d[2] != 0); n->receive(k); env::now += sx_u32("later"); n->svc->process(); sx_assert(ngot == 0, "not received"); message(n, a, 6, false);
}
// any frames at all
static void anyFrames(int frames)
{
  byte a, b; unsigned size = sx_fork(sx_range("size", 1, 6)); Lite *n = receiver(size, a, b); bool busy = false; unsigned expected = 0, length = 0, count = 0, held = 0; byte stream = 0; unsigned timeout = sx_u16("timeout"); sx_assume(timeout); n->svc->setTimeout(timeout); unsigned long last = 0;
  for (int f = 0; f < frames; f++)
  {
    env::now += sx_u16("dt"); int c = ngot; n->svc->process();
    bool late = sx_fork(busy && env::now - last >= timeout); sx_assert((ngot > c) == late, "timeout reported exactly when due"); if (late) { sx_assert(ngot == c + 1 && got[c].status == LONG_MESSAGE_TIMEOUT_ERROR && got[c].len == held && got[c].stream == stream, "the timeout and the bytes received so far"); busy = false; }
    Msg m = symMsg(8); m.d[0] = OPC_DTXC; m.d[3] = 0; c = ngot; n->receive(m);
    if (!busy)
    {
      bool start = sx_fork((m.d[2] == 0) & (m.d[7] == 0) & ((m.d[1] == a) | (m.d[1] == b)));
      if (start) { stream = m.d[1]; length = m.d[4]; count = held = 0; expected = 1; last = env::now; busy = sx_fork(length != 0); sx_assert(ngot - c == !busy, "only an empty message is reported at once"); if (!busy) sx_assert(got[c].status == LONG_MESSAGE_COMPLETE && got[c].len == 0 && got[c].stream == stream, "an empty message is complete"); }
      else sx_assert(ngot == c, "not received");
    }
    else if (sx_fork(m.d[1] != stream)) sx_assert(ngot == c, "other streams are ignored");
    else if (sx_fork(m.d[2] != expected)) { sx_assert(ngot == c + 1 && got[c].status == LONG_MESSAGE_SEQUENCE_ERROR && got[c].len == held && got[c].stream == stream, "sequence error and the bytes received so far"); busy = false; }
    else
    {
      last = env::now; expected++; unsigned take = length - count < 5 ? length - count : 5; take = sx_fork(take); int pieces = 0; byte buf[6];
      (void)buf; for (unsigned i = 0; i < take; i++) { count++; held++; if (held == size || sx_fork(count == length)) { sx_assert(ngot > c + pieces && got[c + pieces].len == held && got[c + pieces].stream == stream, "full pieces are handed over"); sx_assert(got[c + pieces].status == (count == length ? LONG_MESSAGE_COMPLETE : LONG_MESSAGE_INCOMPLETE), "exactly the last piece completes the message"); for (unsigned j = 0; j < held && j <= i; j++) sx_assert(got[c + pieces].d[held - 1 - j] == m.d[3 + i - j], "the bytes of the fragment"); held = 0; pieces++; } }
      sx_assert(ngot == c + pieces, "nothing else is reported"); if (sx_fork(count == length)) busy = false;
    }
  }
}
// @case cost=30
CASE(C28_any_3) { anyFrames(3); }
// @case cost=60
CASE(C28_any_4) { anyFrames(4); }
// @case tier=thorough cost=300 time=800
CASE(C28_any_5) { anyFrames(5); }
// any frame content in the middle of a message: nothing outside the buffer
CASE(C28_memory)
{
  byte a, b; unsigned size = sx_fork(sx_range("size", 1, 7)); Lite *n = receiver(size, a, b); Msg h = symMsg(8); h.d[0] = OPC_DTXC; h.d[2] = h.d[7] = 0; h.d[1] = a; n->receive(h); for (int i = 0; i < 3; i++) { Msg m = symMsg(8); m.d[0] = OPC_DTXC; m.d[2] = i + 1; m.d[1] = a; n->receive(m); } for (int i = 0; i < ngot; i++) sx_assert(got[i].len <= size, "pieces fit the receive buffer");
}

// --- C29 ---------------------------------------------------------------------------------------
static Ex *many(int rx, unsigned size, int tx) { Ex *n = new Ex(); n->size = size; bool r = n->svc->allocateContexts(rx, size, tx); sx_assert(r, "allocated"); n->streams = new byte[3]; for (int i = 0; i < 3; i++) n->streams[i] = sx_u8("stream"); sx_assume((n->streams[0] != n->streams[1]) & (n->streams[1] != n->streams[2]) & (n->streams[0] != n->streams[2])); n->svc->subscribe(n->streams, 3, handler); n->svc->setDelay(0); return n; }
// follows one outgoing message
struct Out { byte *p; unsigned len, sent; byte stream; bool active; unsigned frags() const { return (len + 4) / 5; } };
static void start(Ex *n, Out &o, unsigned len, byte stream)
{
  o.len = len; o.p = content(len); o.stream = stream; o.sent = 0; byte *copy = new byte[len]; for (unsigned i = 0; i < len; i++) copy[i] = o.p[i];
  bool r = n->send(copy, len, stream); sx_assert(r, "accepted"); delete[] copy;   // the message has been copied
  sx_assert(n->rec->n == 1 && isHeader(n->rec->out[0], stream, len), "the header with stream and length"); o.active = len > 0;
}
// what one poll sent belongs to exactly one of the messages and continues it
static void account(Ex *n, Out *o, int k)
{
  sx_assert(n->rec->n <= 1, "at most one fragment per poll"); if (n->rec->n == 0) return;
  for (int i = 0; i < k; i++) if (sx_fork(o[i].active & (n->rec->out[0].d[1] == o[i].stream))) { sx_assert(o[i].sent < o[i].frags() && isFragment(n->rec->out[0], o[i].stream, o[i].sent, o[i].p, o[i].len), "each message continues with its next five bytes under its own stream id"); o[i].sent++; if (o[i].sent == o[i].frags()) o[i].active = false; return; }
  sx_assert(false, "only fragments of messages in progress are sent");
}
static int active(Out *o, int k) { int c = 0; for (int i = 0; i < k; i++) c += o[i].active; return c; }
static void sendMany(int contexts, int k, unsigned maxLen)
{
  Ex *n = many(1, 8, contexts); Out o[3]; for (int i = 0; i < 3; i++) o[i].active = false; int started = 0;
  sx_assert(n->svc->is_sending() == 0 && n->poll() == 0, "idle at first");
  for (int step = 0; step < 40 && (started < k || active(o, started)); step++)
  {
    if (started < k && active(o, started) < contexts && (!active(o, started) || sx_fork(sx_bool("start")))) { start(n, o[started], sx_fork(sx_range("len", 0, maxLen)), n->streams[started]); started++; }
    else { n->poll(); account(n, o, started); }
    sx_assert(n->svc->is_sending() == active(o, started), "the number of messages in progress");
  }
  for (int i = 0; i < k; i++) sx_assert(o[i].sent == o[i].frags(), "every message is sent completely"); for (int i = 0; i < 3; i++) sx_assert(n->poll() == 0, "nothing more is sent");
}
CASE(C29_send_one) { sendMany(1, 1, 7); }
CASE(C29_send_one_of_four) { sendMany(4, 1, 12); }
CASE(C29_send_two) { sendMany(2, 2, 7); }
// @case cost=30
CASE(C29_send_three_of_two) { sendMany(2, 3, 6); }
CASE(C29_send_three_of_three) { sendMany(3, 3, 2); }
// refusals: the stream is already being sent, or no sender is free
static void refused(int contexts, bool sameStream)
{
  Ex *n = many(1, 8, contexts); int k = sameStream ? sx_fork(sx_range("k", 1, contexts)) : contexts; Out o[3]; for (int i = 0; i < k; i++) start(n, o[i], 7, n->streams[i]);
  byte *q = content(3); byte stream = sameStream ? n->streams[sx_fork(sx_range("which", 0, k - 1))] : sx_u8("another"); if (!sameStream) for (int i = 0; i < k; i++) sx_assume(stream != n->streams[i]);
  int before = sx_fork(sx_range("polls", 0, 2)); for (int i = 0; i < before; i++) { n->poll(); account(n, o, k); } if (!sameStream) sx_assume(active(o, k) == contexts); else { bool busy = false; for (int i = 0; i < k; i++) busy = busy | (o[i].active & (o[i].stream == stream)); sx_assume(busy); }
  sx_assert(!n->send(q, 3, stream), "refused"); sx_assert(n->rec->n == 0, "a refused message sends nothing"); sx_assert(n->svc->is_sending() == active(o, k), "nothing is started");
  for (int i = 0; i < 20 && active(o, k); i++) { n->poll(); account(n, o, k); } for (int i = 0; i < k; i++) sx_assert(o[i].sent == o[i].frags(), "the messages in progress are sent completely"); for (int i = 0; i < 3; i++) sx_assert(n->poll() == 0, "nothing more is sent");
  Out x; start(n, x, 3, stream); for (int i = 0; i < contexts; i++) { n->poll(); account(n, &x, 1); } sx_assert(x.sent == 1 && n->svc->is_sending() == 0, "accepted later");
}
CASE(C29_refused_stream) { refused(2, true); }
CASE(C29_refused_full_1) { refused(1, false); }
CASE(C29_refused_full_2) { refused(2, false); }
CASE(C29_refused_full_3) { refused(3, false); }
CASE(C29_no_senders) { Ex *n = many(1, 8, 0); byte *q = content(3); sx_assert(!n->send(q, 3, 1) && n->rec->n == 0, "refused without a sender"); n->poll(); sx_assert(n->rec->n == 0 && n->svc->is_sending() == 0, "nothing is sent"); }
// pacing of each message
CASE(C29_pacing)
{
  Ex *n = many(1, 8, 1); byte delay = sx_u8("delay"); n->svc->setDelay(delay); env::now = sx_u64("clock"); Out o; start(n, o, 12, n->streams[0]); unsigned long last = env::now; bool first = true;
  for (int i = 0; i < 5; i++)
  {
    env::now += sx_u16("dt"); n->poll(); unsigned before = o.sent; account(n, &o, 1); bool sent = o.sent != before; bool late = env::now - last >= delay;
    if (!first) sx_assert(!sent || late, "fragments are at least the delay apart"); if (!first && before < 3) sx_assert(sent || !late, "a fragment is sent as soon as it is due"); if (sent) { last = env::now; first = false; }
  }
}
// long messages: sequence numbers wrap
CASE(C29_send_long)
{
  Ex *n = many(1, 8, 2); Out o[2]; start(n, o[0], 3, n->streams[0]); unsigned len = 1304; o[1].p = new byte[len]; for (unsigned i = 0; i < len; i++) o[1].p[i] = i * 7 + (i >> 8); o[1].p[1275] = sx_u8("byte"); o[1].len = len; o[1].stream = n->streams[1]; o[1].sent = 0; o[1].active = true; sx_assert(n->send(o[1].p, len, o[1].stream) && n->rec->n == 1 && isHeader(n->rec->out[0], o[1].stream, len), "the header with stream and length");
  for (int i = 0; i < 600 && active(o, 2); i++) { n->poll(); account(n, o, 2); } sx_assert(!active(o, 2) && n->svc->is_sending() == 0, "both are sent completely");
}
// another service object with a different number of senders
CASE(C29_two_services)
{
  Ex *n = many(1, 8, 3); Ex *o = many(1, 8, 1); Out a, b; start(n, a, 7, 1); start(o, b, 7, 2);
  for (int i = 0; i < 12 && (a.active || b.active); i++) { if (sx_fork(sx_bool("which"))) { n->poll(); account(n, &a, 1); } else { o->poll(); account(o, &b, 1); } }
  for (int i = 0; i < 6; i++) { n->poll(); account(n, &a, 1); o->poll(); account(o, &b, 1); } sx_assert(!a.active && !b.active, "both are sent completely");
}
// reception
struct In { byte *p; unsigned len, done; byte stream; bool started; unsigned frags() const { return (len + 4) / 5; } };
static void incoming(In &i, unsigned len, byte stream) { i.p = content(len); i.len = len; i.done = 0; i.stream = stream; i.started = false; }
static bool finished(const In &i) { return i.started && i.done == i.frags(); }
static void step(Ex *n, In &i)
{
  int c = ngot; if (!i.started) { n->header(i.stream, i.len); i.started = true; } else { n->fragment(i.stream, i.p, i.len, i.done); i.done++; }
  if (!finished(i)) { sx_assert(ngot == c, "nothing is reported before the end of a message"); return; }
  sx_assert(ngot == c + 1 && got[c].status == LONG_MESSAGE_COMPLETE && got[c].stream == i.stream && got[c].len == i.len, "the complete message is handed over once"); bool ok = true; for (unsigned j = 0; j < i.len; j++) ok = ok & (got[c].d[j] == i.p[j]); sx_assert(ok, "exactly the bytes sent");
}
static void receiveTwo(unsigned size, unsigned lo, unsigned hi, bool others)
{
  Ex *n = many(2, size, 1); env::now = sx_u64("clock"); In in[2]; for (int i = 0; i < 2; i++) incoming(in[i], sx_fork(sx_range("len", lo, hi)), n->streams[i]);
  while (!finished(in[0]) || !finished(in[1]))
  {
    int w = finished(in[0]) ? 1 : finished(in[1]) ? 0 : sx_fork(sx_bool("which")); step(n, in[w]); n->svc->process();
    if (others && sx_fork(sx_bool("other"))) { Msg m = symMsg(8); m.d[0] = OPC_DTXC; for (int i = 0; i < 3; i++) sx_assume(m.d[1] != n->streams[i]); int c = ngot; n->receive(m); sx_assert(ngot == c, "streams not subscribed are ignored"); }
  }
  int c = ngot; env::now += sx_u32("later"); n->svc->process(); sx_assert(ngot == c, "nothing more after the end"); sx_assert(n->rec->n == 0, "reception sends nothing");
}
CASE(C29_receive_two) { receiveTwo(7, 0, 7, false); }
CASE(C29_receive_two_others) { receiveTwo(64, 4, 6, true); }
// @case cost=30
CASE(C29_receive_two_long) { receiveTwo(17, 8, 17, false); }
// two receptions, each with its own pauses
static void timeouts()
{
  sx_need("timed out"); sx_need("complete"); sx_need("other complete");
  Ex *n = many(2, 20, 1); env::now = sx_u64("clock"); unsigned timeout = sx_u16("timeout"); sx_assume(timeout > 0); n->svc->setTimeout(timeout);
  byte *p[2] = {content(7), content(7)}; int next[2] = {-1, -1}; bool busy[2] = {false, false}; unsigned long last[2] = {0, 0};
  for (int f = 0; f < 6; f++)
  {
    env::now += sx_u16("dt"); int c = ngot; n->svc->process(); int late = 0;
    for (int i = 0; i < 2; i++) if (busy[i] && sx_fork(env::now - last[i] >= timeout))
    {
      late++; busy[i] = false; bool told = false; for (int k = c; k < ngot; k++) told = told | ((got[k].stream == n->streams[i]) & (got[k].status == LONG_MESSAGE_TIMEOUT_ERROR) & (got[k].len == 5u * next[i])); sx_assert(told, "a timeout is told with the bytes received so far"); sx_cover("timed out");
    }
    sx_assert(ngot == c + late, "and only for a reception whose sender paused"); c = ngot;
    int w = f == 0 ? 0 : f == 1 ? 1 : sx_fork(sx_bool("which")); byte s = n->streams[w];
    if (next[w] < 0) { n->header(s, 7); next[w] = 0; busy[w] = true; last[w] = env::now; sx_assert(ngot == c, "nothing yet"); }
    else if (next[w] < 2)
    {
      n->fragment(s, p[w], 7, next[w]); next[w]++;
      if (busy[w]) { last[w] = env::now; if (next[w] == 2) { sx_assert(ngot == c + 1 && got[c].status == LONG_MESSAGE_COMPLETE && got[c].stream == s && got[c].len == 7, "complete"); if (w) sx_cover("other complete"); else sx_cover("complete"); busy[w] = false; } else sx_assert(ngot == c, "nothing yet"); }
      else sx_assert(ngot == c, "the rest of the failed message is ignored");
    }
  }
}
CASE(C29_receive_pauses) { timeouts(); }
// a third stream while both receivers are busy is not received and disturbs nothing; afterwards receivers are free again
CASE(C29_receive_three)
{
  Ex *n = many(2, 8, 1); In in[3]; for (int i = 0; i < 3; i++) incoming(in[i], 6, n->streams[i]); int at = sx_fork(sx_range("at", 0, 2)); step(n, in[0]); step(n, in[1]);
  for (int k = 0; k < 2; k++) { if (k == at) { int c = ngot; n->header(in[2].stream, 6); n->fragment(in[2].stream, in[2].p, 6, 0); n->fragment(in[2].stream, in[2].p, 6, 1); sx_assert(ngot == c, "no receiver for a third message"); } step(n, in[0]); step(n, in[1]); }
  step(n, in[2]); step(n, in[2]); step(n, in[2]); sx_assert(ngot == 3, "received when a receiver is free");
}
CASE(C29_receive_again) { Ex *n = many(2, 8, 1); for (int k = 0; k < 4; k++) { In in; incoming(in, 6, n->streams[sx_fork(sx_range("stream", 0, 1))]); step(n, in); step(n, in); step(n, in); } sx_assert(ngot == 4, "one after the other"); }
CASE(C29_receive_long)
{
  byte dummy; (void)dummy; Ex *n = new Ex(); unsigned len = 1304; sx_assert(n->svc->allocateContexts(2, len, 1), "allocated"); byte ids[2] = {5, 6}; n->svc->subscribe(ids, 2, handlerLong); longGot = 0; byte *p = new byte[len]; for (unsigned i = 0; i < len; i++) p[i] = i * 7 + (i >> 8); p[1275] = sx_u8("byte"); p[1274] = sx_u8("byte"); p[1279] = sx_u8("byte"); n->header(5, len);
  for (unsigned k = 0; k < 261; k++) { n->fragment(5, p, len, k); if (k == 255) n->header(6, 2); } n->frame(6, 1, 8, 9, 0, 0, 0);
  sx_assert(longGot == 2 && longLen[0] == len && longStatus[0] == LONG_MESSAGE_COMPLETE && longLen[1] == 2 && longStatus[1] == LONG_MESSAGE_COMPLETE, "both messages are complete"); bool ok = true; for (unsigned i = 0; i < len; i++) ok = ok & (longBytes[i] == p[i]); sx_assert(ok, "exactly the bytes sent");
}
// sending and receiving together, through the same service
CASE(C29_both)
{
  Ex *n = many(1, 8, 1); Out o; start(n, o, 7, sx_u8("out")); In in; incoming(in, 7, n->streams[0]);
  for (int i = 0; i < 8 && (o.active || !finished(in)); i++) { if (o.active && (finished(in) || sx_fork(sx_bool("which")))) { n->poll(); account(n, &o, 1); } else if (!finished(in)) { n->rec->clear(); step(n, in); } } sx_assert(!o.active && finished(in), "both are complete");
}

// --- C30 ---------------------------------------------------------------------------------------
// CRC-16/X-25 with its bytes exchanged, bit by bit
static unsigned refCrc(const byte *p, unsigned len)
{
  unsigned crc = 0xffff; for (unsigned i = 0; i < len; i++) for (int b = 0; b < 8; b++) { unsigned f = (crc ^ (p[i] >> b)) & 1; crc = (crc >> 1) ^ (0x8408 & (0u - f)); } crc = ~crc & 0xffff; return ((crc << 8) | (crc >> 8)) & 0xffff;
}
static Ex *checked(unsigned size) { Ex *n = many(2, size, 2); n->svc->use_crc(true); return n; }
static void crcReceive(unsigned len)
{
  sx_need("good"); sx_need("bad"); Ex *n = checked(len); byte *p = content(len); unsigned crc = sx_u16("crc"); byte s = n->streams[0]; n->header(s, len, crc); for (unsigned k = 0; 5 * k < len; k++) n->fragment(s, p, len, k);
  sx_assert(ngot == 1 && got[0].stream == s && got[0].len == len, "reported once"); bool good = (crc == refCrc(p, len)) | (crc == 0); sx_assert((got[0].status == LONG_MESSAGE_COMPLETE) == good, "complete exactly when the checksum matches"); sx_assert(good | (got[0].status == LONG_MESSAGE_CRC_ERROR), "otherwise a checksum error");
  bool ok = true; for (unsigned j = 0; j < len; j++) ok = ok & (got[0].d[j] == p[j]); sx_assert(ok, "the bytes received"); if (good) sx_cover("good"); else sx_cover("bad");
}
CASE(C30_crc_1) { crcReceive(1); }
CASE(C30_crc_2) { crcReceive(2); }
CASE(C30_crc_3) { crcReceive(3); }
CASE(C30_crc_5) { crcReceive(5); }
CASE(C30_crc_7) { crcReceive(7); }
// beyond 255 bytes and beyond the sequence number
static void crcLong(unsigned len)
{
  Ex *n = new Ex(); sx_assert(n->svc->allocateContexts(1, len, 1), "allocated"); byte id = 5; n->svc->subscribe(&id, 1, handlerLong); n->svc->setDelay(0); n->svc->use_crc(true); longGot = 0;
  byte *p = new byte[len]; for (unsigned i = 0; i < len; i++) p[i] = i * 7 + (i >> 8); byte flip = sx_u8("flip"); unsigned back = sx_fork(sx_range("back", 0, 3)), at = len - 1 - (back == 2 ? 6 : back == 3 ? 20 : back); unsigned crc = refCrc(p, len);
  n->send(p, len, 9); sx_assert(n->rec->n == 1 && isHeader(n->rec->out[0], 9, len) && n->rec->out[0].d[5] == (crc >> 8) && n->rec->out[0].d[6] == (crc & 255), "the checksum sent is the CRC-16 of the message");
  p[at] ^= flip; n->header(5, len, crc); for (unsigned k = 0; 5 * k < len; k++) n->fragment(5, p, len, k);
  sx_assert(longGot == 1 && longLen[0] == len && longStatus[0] == (flip ? LONG_MESSAGE_CRC_ERROR : LONG_MESSAGE_COMPLETE), "complete exactly when the checksum matches");
}
CASE(C30_long_257) { crcLong(257); }
CASE(C30_long_300) { crcLong(300); }
CASE(C30_long_512) { crcLong(512); }
CASE(C30_long_1303) { crcLong(1303); }
// the checksum sent
static void crcSend(unsigned len) { Ex *n = checked(8); byte *p = content(len); n->send(p, len, 9); sx_assert(n->rec->n == 1 && isHeader(n->rec->out[0], 9, len), "header"); unsigned c = refCrc(p, len); sx_assert((n->rec->out[0].d[5] == (c >> 8)) & (n->rec->out[0].d[6] == (c & 255)), "the checksum sent is the CRC-16 of the message"); }
CASE(C30_sent_1) { crcSend(1); }
CASE(C30_sent_3) { crcSend(3); }
CASE(C30_sent_7) { crcSend(7); }
CASE(C30_sent_12) { crcSend(12); }
CASE(C30_sent_off) { Ex *n = checked(8); n->svc->use_crc(false); byte *p = content(6); n->send(p, 6, 9); sx_assert(n->rec->n == 1 && n->rec->out[0].d[5] == 0 && n->rec->out[0].d[6] == 0, "no checksum without checksums"); }
// from one module to another with one altered byte
static void corrupted(unsigned len)
{
  Ex *n = checked(len); byte *p = content(len); byte s = n->streams[0]; n->send(p, len, s); Msg m[4]; int k = 0; m[k++] = n->rec->out[0]; while (n->svc->is_sending()) { n->poll(); if (n->rec->n) m[k++] = n->rec->out[0]; }
  sx_assume((m[0].d[5] | m[0].d[6]) != 0); unsigned at = sx_fork(sx_range("at", 0, len - 1)); byte flip = sx_u8("flip"); m[1 + at / 5].d[3 + at % 5] ^= flip; for (int i = 0; i < k; i++) n->receive(m[i]);
  sx_assert(ngot == 1 && got[0].len == len, "reported once"); sx_assert(got[0].status == (flip ? LONG_MESSAGE_CRC_ERROR : LONG_MESSAGE_COMPLETE), "an altered byte is never reported complete");
}
CASE(C30_corrupted_2) { corrupted(2); }
CASE(C30_corrupted_4) { corrupted(4); }
CASE(C30_corrupted_7) { corrupted(7); }
// without checksums in use a received checksum does not matter
CASE(C30_not_used) { Ex *n = many(1, 8, 1); byte *p = content(6); byte s = n->streams[1]; n->header(s, 6, sx_u16("crc")); n->fragment(s, p, 6, 0); n->fragment(s, p, 6, 1); sx_assert(ngot == 1 && got[0].status == LONG_MESSAGE_COMPLETE && got[0].len == 6, "complete"); }
// overflow
CASE(C30_truncated)
{
  unsigned size = sx_fork(sx_range("size", 1, 7)), len = sx_fork(sx_range("len", 2, 12)); sx_assume(len > size); Ex *n = many(1, size, 1); n->svc->use_crc(sx_fork(sx_bool("use"))); byte *p = content(len); byte s = n->streams[0]; n->header(s, len, sx_u16("crc")); for (unsigned k = 0; 5 * k < len; k++) n->fragment(s, p, len, k);
  sx_assert(ngot == 1 && got[0].status == LONG_MESSAGE_TRUNCATED && got[0].len == size && got[0].stream == s, "overflow is reported as truncated, once"); bool ok = true; for (unsigned j = 0; j < size; j++) ok = ok & (got[0].d[j] == p[j]); sx_assert(ok, "with the bytes that fit");
  ngot = 0; n->svc->use_crc(false); In in; incoming(in, 1, n->streams[1]); step(n, in); step(n, in); sx_assert(ngot == 1, "a later message is received");
}
// sequence errors and timeouts
CASE(C30_sequence)
{
  Ex *n = many(2, 20, 1); unsigned at = sx_fork(sx_range("at", 0, 2)); In other; incoming(other, 6, n->streams[1]); step(n, other); byte *p = content(12); byte s = n->streams[0]; n->header(s, 12); for (unsigned k = 0; k < at; k++) n->fragment(s, p, 12, k); step(n, other);
  byte seq = sx_u8("seq"); sx_assume((seq != at + 1) & (seq != 0)); n->frame(s, seq, sx_u8("v"), sx_u8("v"), sx_u8("v"), sx_u8("v"), sx_u8("v")); sx_assert(ngot == 1 && got[0].status == LONG_MESSAGE_SEQUENCE_ERROR && got[0].stream == s && got[0].len == 5 * at, "a wrong sequence number is reported with the bytes so far"); bool ok = true; for (unsigned j = 0; j < 5 * at; j++) ok = ok & (got[0].d[j] == p[j]); sx_assert(ok, "the bytes received so far");
  for (unsigned k = at; k < 3; k++) n->fragment(s, p, 12, k); sx_assert(ngot == 1, "the rest of the failed message is ignored"); step(n, other); sx_assert(ngot == 2, "the other message is not affected"); In in; incoming(in, 7, s); step(n, in); step(n, in); step(n, in); sx_assert(ngot == 3, "a later message is received");
}
CASE(C30_timeout)
{
  sx_need("timed out"); sx_need("in time"); Ex *n = many(2, 20, 1); env::now = sx_u64("clock"); unsigned timeout = sx_u32("timeout"); sx_assume(timeout > 0); n->svc->setTimeout(timeout); unsigned at = sx_fork(sx_range("at", 0, 2)); byte *p = content(12); byte s = n->streams[0]; n->header(s, 12); for (unsigned k = 0; k < at; k++) n->fragment(s, p, 12, k);
  unsigned long t1 = sx_u32("wait"), t2 = sx_u32("wait2"); env::now += t1; In other; incoming(other, 6, n->streams[1]); step(n, other); step(n, other); n->svc->process(); sx_assert((ngot == 1) == (t1 >= timeout), "the timeout is told exactly when the pause is that long");
  if (ngot == 0) { step(n, other); ngot = 0; env::now += t2; n->svc->process(); sx_assert((ngot == 1) == (t1 + t2 >= timeout), "the timeout is told exactly when the pause is that long, whatever other streams do"); }
  if (ngot) { sx_cover("timed out"); sx_assert(got[0].status == LONG_MESSAGE_TIMEOUT_ERROR && got[0].stream == s && got[0].len == 5 * at, "with the bytes received so far"); n->svc->process(); sx_assert(ngot == 1, "once"); n->fragment(s, p, 12, at); sx_assert(ngot == 1, "the rest of the failed message is ignored"); In in; incoming(in, 6, s); step(n, in); step(n, in); step(n, in); sx_assert(ngot == 2, "a later message is received"); }
  else { sx_cover("in time"); for (unsigned k = at; k < 3; k++) n->fragment(s, p, 12, k); sx_assert(ngot == 1 && got[0].status == LONG_MESSAGE_COMPLETE && got[0].len == 12, "complete"); }
}
CASE(C30_timeout_two) { timeouts(); }
CASE(C30_slow) { Ex *n = many(1, 20, 1); unsigned timeout = sx_u32("timeout"); n->svc->setTimeout(timeout); byte *p = content(12); byte s = n->streams[0]; n->header(s, 12); for (unsigned k = 0; k < 3; k++) { unsigned d = sx_u32("pause"); sx_assume(d < timeout); env::now += d; n->svc->process(); n->fragment(s, p, 12, k); } sx_assert(ngot == 1 && got[0].status == LONG_MESSAGE_COMPLETE, "complete"); }
// any frames at all: nothing outside the buffers
static void anyEx(int frames)
{
  unsigned size = sx_fork(sx_range("size", 1, 7)); Ex *n = many(2, size, 1); n->svc->use_crc(sx_fork(sx_bool("use"))); n->svc->setTimeout(100);
  for (int f = 0; f < frames; f++) { Msg m = symMsg(8); m.d[0] = OPC_DTXC; n->receive(m); env::now += sx_u8("dt"); n->svc->process(); } for (int i = 0; i < ngot; i++) sx_assert(got[i].len <= size, "no more than the receive buffer");
}
// @case cost=30
CASE(C30_any_3) { anyEx(3); }
// @case tier=thorough cost=200
CASE(C30_any_4) { anyEx(4); }
