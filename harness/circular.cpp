// CircularBuffer: FIFO against an unbounded reference queue.
#include <Arduino.h>
#include "CircularBuffer.h"
#include "arduino.h"
using namespace VLCB;

// Reference: the sequence of items currently held, oldest first.
struct Ref { uint32_t v[300]; int n; int cap; unsigned puts, gets, over, hwm;
  void put(uint32_t x) { if (n == cap) { for (int i = 1; i < n; i++) v[i - 1] = v[i]; n--; over++; } v[n++] = x; puts++; if ((unsigned)n > hwm) hwm = n; }
  uint32_t pop() { uint32_t x = v[0]; for (int i = 1; i < n; i++) v[i - 1] = v[i]; n--; gets++; return x; } };

static void compare(CircularBuffer<uint32_t> &b, Ref &r)
{
  sx_assert(b.available() == (r.n > 0), "available() tells whether items are held");
  uint32_t *p = b.peek();
  sx_assert((p != nullptr) == (r.n > 0), "peek() is null exactly when empty");
  if (p) sx_assert(*p == r.v[0], "peek() shows the oldest item");
  sx_assert(b.getNumberOfPuts() == r.puts, "put count");
  sx_assert(b.getNumberOfGets() == r.gets, "get count");
  sx_assert(b.getOverflows() == r.over, "overflow count");
  sx_assert(b.getHighWaterMark() == r.hwm, "high watermark");
}

static void ops(int cap, int nops)
{
  CircularBuffer<uint32_t> b(cap);
  Ref r = {}; r.cap = cap;
  sx_need("overflowed"); sx_need("emptied"); sx_need("cleared");
  bool had = false;
  for (int i = 0; i < nops; i++)
  {
    uint8_t op = sx_fork(sx_range("op", 0, 2));
    if (op == 0) { uint32_t x = sx_u32("item"); b.put(x); r.put(x); had = true; if (r.over) sx_cover("overflowed"); }
    else if (op == 1) { if (r.n == 0) sx_end(); uint32_t got = b.pop(); uint32_t want = r.pop(); sx_assert(got == want, "pop() returns the oldest item"); if (r.n == 0) sx_cover("emptied"); }
    else { b.clear(); r.n = 0; if (had) sx_cover("cleared"); }
    compare(b, r);
  }
  while (r.n) { sx_assert(b.available(), "items left"); uint32_t want = r.pop(); sx_assert(b.pop() == want, "drain order"); }
  sx_assert(!b.available(), "empty after draining");
}
// @case cost=30
CASE(C31_ops_cap1) { ops(1, 6); }
// @case cost=30
CASE(C31_ops_cap2) { ops(2, 7); }
// @case cost=40
CASE(C31_ops_cap3) { ops(3, 8); }
// @case cost=40
CASE(C31_ops_default) { ops(4, 8); }
// @case cost=60 tier=thorough
CASE(C31_ops_cap3_deep) { ops(3, 11); }

// Long phases: fill n1, drain n2, fill n3, drain all; capacity and phase lengths cover
// every wrap position of a buffer of the real queue sizes.
static void phases(int cap, int hi)
{
  CircularBuffer<uint32_t> b(cap);
  Ref r = {}; r.cap = cap;
  uint8_t n1 = sx_fork(sx_range("fill1", 0, hi)), n2 = sx_fork(sx_range("drain1", 0, hi)), n3 = sx_fork(sx_range("fill2", 0, hi));
  if (n2 > (n1 < cap ? n1 : cap)) sx_end();
  for (int i = 0; i < n1; i++) { uint32_t x = sx_u32("a"); b.put(x); r.put(x); }
  for (int i = 0; i < n2; i++) { uint32_t w = r.pop(); sx_assert(b.pop() == w, "pop() returns the oldest item"); }
  compare(b, r);
  for (int i = 0; i < n3; i++) { uint32_t x = sx_u32("b"); b.put(x); r.put(x); compare(b, r); }
  while (r.n) { uint32_t w = r.pop(); sx_assert(b.pop() == w, "drain order"); compare(b, r); }
}
// @case cost=60
CASE(C31_phases_cap5) { phases(5, 11); }
// @case cost=60 tier=thorough
CASE(C31_phases_cap10) { phases(10, 21); }

// Counters and positions across the range of 8-bit counters and large capacities.
static void longrun(int cap, int pre, int n)
{
  CircularBuffer<uint32_t> b(cap);
  Ref r = {}; r.cap = cap;
  for (int i = 0; i < pre; i++) { uint32_t x = sx_u32("p"); b.put(x); r.put(x); }
  compare(b, r);
  for (int i = 0; i < n; i++)
  {
    uint32_t x = sx_u32("x"); b.put(x); r.put(x); compare(b, r);
    if (i % 3 != 2 && r.n) { uint32_t w = r.pop(); sx_assert(b.pop() == w, "pop() returns the oldest item"); compare(b, r); }
  }
  while (r.n) { uint32_t w = r.pop(); sx_assert(b.pop() == w, "drain order"); }
  sx_assert(!b.available(), "empty after draining");
}
// @case cost=20
CASE(C31_long_cap30) { longrun(30, 33, 270); }
// @case cost=20
CASE(C31_long_cap127) { longrun(127, 130, 40); }
// @case cost=20
CASE(C31_long_cap7) { longrun(7, 3, 300); }
// @case cost=20
CASE(C31_long_cap200) { longrun(200, 190, 60); }
// @case cost=20
CASE(C31_long_cap2) { longrun(2, 300, 320); }
// @case cost=20
CASE(C31_long_cap255) { longrun(255, 250, 30); }
