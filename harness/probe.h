// Sequences of storage operations judged at one arbitrary address: the device
// model keeps the contents of that cell only, all others read as arbitrary.
#pragma once
#include "sx.h"
#include "Storage.h"
using namespace VLCB;
static uint32_t cell; static uint8_t cellValue; static bool others;
static void deviceWrite(uint32_t a, uint8_t v) { cellValue = a == cell ? v : cellValue; }
static uint8_t deviceRead(uint32_t a) { uint8_t j = sx_u8("other"); return a == cell ? cellValue : j; }
static void operation(Storage *s, uint32_t size, int maxLen)
{
  uint32_t a = sx_u16("address"); sx_assume(a < size); int n = sx_fork(sx_range("n", 1, maxLen)); sx_assume(a + n <= size);
  byte *d = new byte[n]; uint8_t before = cellValue; unsigned at = cell - a; bool inside = at < (unsigned)n;
  switch (sx_fork(sx_range("op", 0, 3)))
  {
    case 0: { for (int i = 0; i < n; i++) d[i] = sx_u8("data"); uint8_t want = before; for (int i = 0; i < n; i++) want = cell == a + i ? d[i] : want; s->writeBytes(a, d, n); sx_assert(cellValue == want, "a multi-byte write changes exactly its addresses"); break; }
    case 1: { sx_assume(n == 1); byte v = sx_u8("data"); s->write(a, v); sx_assert(cellValue == (cell == a ? v : before), "a write changes exactly its address"); break; }
    case 2: { for (int i = 0; i < n; i++) d[i] = sx_u8("stale"); byte r = s->readBytes(a, n, d); sx_assert(r == n, "all bytes are read"); bool ok = true; for (int i = 0; i < n; i++) ok = ok & ((cell != a + i) | (d[i] == before)); sx_assert(ok, "a multi-byte read returns what was last written"); sx_assert(cellValue == before, "reading changes nothing"); break; }
    case 3: { sx_assume(n == 1); byte v = s->read(a); sx_assert((cell != a) | (v == before), "a read returns what was last written"); sx_assert(cellValue == before, "reading changes nothing"); break; }
  }
  (void)inside; delete[] d;
}
static void operations(Storage *s, uint32_t size, int steps, int maxLen) { cell = sx_u16("cell"); sx_assume(cell < size); cellValue = sx_u8("contents"); s->begin(); for (int i = 0; i < steps; i++) operation(s, size, maxLen); }
// a reset blanks the space of variables and events
static void resets(Storage *s, uint32_t size) { cell = sx_u16("cell"); sx_assume((cell >= 10) & (cell < size)); cellValue = sx_u8("contents"); s->begin(); operation(s, size, 1); s->reset(); sx_assert(cellValue == 0xff, "a reset blanks the space of variables and events"); operation(s, size, 2); }
