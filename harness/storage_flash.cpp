// Storage in program flash of AVR-Dx devices: C32.
// @source FlashStorage.cpp
// @flags -DDXCORE
#include <Arduino.h>
#include "FlashStorage.h"
#include "arduino.h"
#include "sx.h"
using namespace VLCB;

// The top 2 kB of flash; the rest is the program.
static const uint32_t BASE = PROGMEM_SIZE - 0x800; static uint8_t *area, *want; FlashClass Flash;
uint8_t FlashClass::checkWritable() { return FLASHWRITE_OK; }
uint8_t FlashClass::readByte(uint32_t a) { sx_assert(a >= BASE && a < PROGMEM_SIZE, "reads the data area only"); return area[a - BASE]; }
uint8_t FlashClass::erasePage(uint32_t a, uint8_t pages) { int n = 512 * (pages > 1 ? pages : 1); sx_assert(a >= BASE && a + n <= PROGMEM_SIZE && a % 512 == 0, "erases pages of the data area only"); for (int i = 0; i < n; i++) area[a - BASE + i] = 0xff; return FLASHWRITE_OK; }
uint8_t FlashClass::writeBytes(uint32_t a, uint8_t *d, uint16_t n) { sx_assert(a >= BASE && a + n <= PROGMEM_SIZE, "writes the data area only"); for (int i = 0; i < n; i++) area[a - BASE + i] &= d[i]; return FLASHWRITE_OK; }

static Storage *fresh() { area = new uint8_t[2048]; want = new uint8_t[2048]; for (int i = 0; i < 2048; i++) want[i] = area[i]; Storage *s = new FlashStorage; s->begin(); return s; }
static void compare() { bool ok = true; for (int i = 0; i < 2048; i++) ok = ok & (area[i] == want[i]); sx_assert(ok, "a write changes exactly its addresses"); }
static void store(Storage *s, unsigned a, int n, bool single) { byte *d = new byte[n]; for (int i = 0; i < n; i++) want[a + i] = d[i] = sx_u8("data"); if (single) s->write(a, d[0]); else s->writeBytes(a, d, n); delete[] d; compare(); }
static void load(Storage *s, unsigned a, int n) { byte *e = new byte[n]; byte r = s->readBytes(a, n, e); sx_assert(r == n, "all bytes are read"); bool ok = s->read(a) == want[a]; for (int i = 0; i < n; i++) ok = ok & (e[i] == want[a + i]); sx_assert(ok, "reading returns what was last written"); delete[] e; compare(); }
static unsigned edge() { unsigned p = sx_fork(sx_range("page", 0, 3)), o[6] = {0, 1, 300, 508, 510, 511}; return p * 512 + o[sx_fork(sx_range("offset", 0, 5))]; }
// @case cost=20
CASE(C32_flash_every_address) { Storage *s = fresh(); unsigned a = sx_fork(sx_u16("address") & 2047); store(s, a, 1, true); load(s, a, 1); }
// @case cost=20
CASE(C32_flash_block) { Storage *s = fresh(); unsigned a = edge(); int n = sx_fork(sx_range("n", 1, 7)); sx_assume(a + n <= 2048); store(s, a, n, false); load(s, a, n); }
// @case cost=30
CASE(C32_flash_two) { Storage *s = fresh(); unsigned a = edge(), b = edge(); int n = sx_fork(sx_range("n", 1, 4)); if (n == 3) n = 4; sx_assume(a + n <= 2048 && b + n <= 2048); store(s, a, n, n == 1); store(s, b, n, n == 1); load(s, a, n); }
// @case cost=30 tier=thorough
CASE(C32_flash_three) { Storage *s = fresh(); unsigned a = edge(), b = edge(), c = edge(); sx_assume(a + 4 <= 2048 && b + 4 <= 2048 && c + 4 <= 2048); store(s, a, 4, false); store(s, b, 4, false); store(s, c, 4, false); load(s, a, 4); }
CASE(C32_flash_large) { Storage *s = fresh(); unsigned a = 512 * sx_fork(sx_range("page", 0, 2)) + 400; store(s, a, 255, false); load(s, a, 255); store(s, 3, 2, false); }
CASE(C32_flash_begin_again) { Storage *s = fresh(); unsigned a = edge(), b = edge(); store(s, a, 1, true); s->begin(); compare(); store(s, b, 1, true); load(s, a, 1); }
CASE(C32_flash_reset) { Storage *s = fresh(); unsigned a = edge(), b = edge(); store(s, a, 1, true); s->reset(); bool ok = true; for (int i = 10; i < 2048; i++) ok = ok & (area[i] == 0xff); sx_assert(ok, "a reset blanks the space of variables and events"); for (int i = 0; i < 2048; i++) want[i] = area[i]; store(s, b, 1, true); load(s, a, 1); }
