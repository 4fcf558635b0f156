// GridConnect encode/decode: C01, C02.
// @source GridConnect.cpp
#include <Arduino.h>
#include "GridConnect.h"
#include "arduino.h"
#include "gctext.h"
using namespace VLCB;

static void symFrame(CANFrame &f)
{
  f.ext = sx_bool("ext"); f.rtr = sx_bool("rtr"); f.id = sx_u32("id"); f.len = sx_u8("len");
  for (int i = 0; i < 8; i++) f.data[i] = sx_u8("data");
}

static void roundtrip(bool ext)
{
  sx_need("encoded"); sx_need("eight bytes"); sx_need("remote");
  CANFrame f; symFrame(f);
  sx_assume(f.ext == ext); sx_assume(f.len <= 8); sx_assume(f.id <= (ext ? 0x1FFFFFFFu : 0x7FFu));
  f.ext = ext; f.len = sx_fork(f.len); f.rtr = sx_fork(f.rtr);
  char *text = new char[29];           // 28 characters and the terminator
  CANFrame before = f;
  bool ok = encodeGridConnect(text, &f);
  sx_assert(ok, "a valid frame is encoded");
  sx_cover("encoded"); if (f.len == 8) sx_cover("eight bytes"); if (f.rtr) sx_cover("remote");
  char want[40]; int n = refText(before, want);
  bool same = true; for (int i = 0; i <= n; i++) same = same & (text[i] == want[i]);
  sx_assert(same, "text is the GridConnect form of the frame");
  for (int i = 0; i < n; i++) sx_observe(text[i]);
  CANFrame g; g.id = sx_u32("g"); g.ext = sx_bool("g"); g.rtr = sx_bool("g"); g.len = sx_u8("g");
  bool dec = decodeGridConnect(text, &g);
  sx_assert(dec, "the text decodes");
  sx_assert(g.id == before.id, "identifier survives");
  sx_assert(g.ext == before.ext && g.rtr == before.rtr, "frame kind survives");
  sx_assert(g.len == before.len, "length survives");
  bool d = true; for (int i = 0; i < f.len; i++) d = d & (g.data[i] == before.data[i]);
  sx_assert(d, "data survives");
  delete[] text;
}
// @case cost=20 merge=8
CASE(C01_roundtrip_standard) { roundtrip(false); }
// @case cost=20 merge=8
CASE(C01_roundtrip_extended) { roundtrip(true); }
// @case cost=20 merge=8
CASE(C01_refuse)
{
  sx_need("bad id"); sx_need("bad length");
  CANFrame f; symFrame(f);
  f.ext = sx_fork(f.ext);
  bool badId = f.id > (f.ext ? 0x1FFFFFFFu : 0x7FFu), badLen = f.len > 8;
  sx_assume(badId || badLen);
  char *text = new char[29]; for (int i = 0; i < 29; i++) text[i] = (char)sx_u8("old");
  bool ok = encodeGridConnect(text, &f);
  sx_assert(!ok, "a frame that does not fit is refused");
  sx_assert(text[0] == 0, "a refused frame leaves an empty text");
  if (badId) sx_cover("bad id"); else sx_cover("bad length");
  delete[] text;
}

// --- C02 --------------------------------------------------------------------
static void decodeText(int lo, int hi, bool wide)
{
  sx_need("accepted"); sx_need("rejected");
  int len = sx_fork(sx_range("len", lo, hi));
  char *t = new char[len + 1];
  for (int i = 0; i < len; i++) { char c = (char)sx_u8("c"); sx_assume(c != 0); t[i] = c; }
  t[len] = 0;
  (void)wide;
  CANFrame f; f.id = sx_u32("f"); f.ext = false; f.rtr = false; f.len = sx_u8("f");
  CANFrame r; bool want = refDecode(t, len, r);
  bool got = decodeGridConnect(t, &f);
  sx_observe(got);
  sx_assert(got == want, "accepted exactly when well-formed");
  if (got)
  {
    sx_cover("accepted");
    sx_observe(f.id); sx_observe(f.len);
    sx_assert(f.id == r.id, "identifier is what the digits denote");
    sx_assert(f.ext == r.ext && f.rtr == r.rtr, "frame kind is what the text says");
    sx_assert(f.len == r.len, "data length");
    bool d = true; for (int i = 0; i < 8; i++) if (i < r.len) d = d & (f.data[i] == r.data[i]);
    sx_assert(d, "data bytes are what the digits denote");
  }
  else sx_cover("rejected");
  delete[] t;
}
static void shortText()
{
  int len = sx_fork(sx_range("len", 0, 7));
  char *t = new char[len + 1];
  for (int i = 0; i < len; i++) { char c = (char)sx_u8("c"); sx_assume(c != 0); t[i] = c; }
  t[len] = 0;
  CANFrame f; sx_assert(!decodeGridConnect(t, &f), "too short a text is refused");
  delete[] t;
}
// @case cost=10 merge=8
CASE(C02_text_0_7) { shortText(); }
// @case cost=30 merge=8
CASE(C02_text_8_13) { decodeText(8, 13, false); }
// @case cost=30 merge=8
CASE(C02_text_14_19) { decodeText(14, 19, false); }
// @case cost=30 merge=8
CASE(C02_text_20_24) { decodeText(20, 24, false); }
// @case cost=30 merge=8
CASE(C02_text_25_28) { decodeText(25, 28, false); }
static void tooLong(int lo, int hi)
{
  int len = sx_fork(sx_range("len", lo, hi));
  char *t = new char[len + 1];
  for (int i = 0; i < len; i++) { char c = (char)sx_u8("c"); sx_assume(c != 0); t[i] = c; }
  t[len] = 0;
  CANFrame f; sx_assert(!decodeGridConnect(t, &f), "too long a text is refused");
  delete[] t;
}
// @case cost=30 merge=8
CASE(C02_text_29_33) { tooLong(29, 33); }
// @case cost=30 merge=8
CASE(C02_text_34_60) { tooLong(34, 60); }
// @case cost=30 merge=8
CASE(C02_text_long) { int len = 250 + sx_fork(sx_range("len", 0, 30)); char *t = new char[len + 1]; for (int i = 0; i < len; i++) { char c = (char)sx_u8("c"); sx_assume(c != 0); t[i] = c; } t[len] = 0; CANFrame f; sx_assert(!decodeGridConnect(t, &f), "too long a text is refused"); }
