// Storage drivers for internal and I2C EEPROM: C32.
// @source EepromInternalStorage.cpp
// @source EepromExternalStorage.cpp
#include <Arduino.h>
#include "EepromInternalStorage.h"
#include "EepromExternalStorage.h"
#include "arduino.h"
#include "probe.h"

// internal EEPROM (the library header defines the object itself)
struct EEPROM_T { byte read(unsigned int); void write(unsigned int, byte); };
byte EEPROM_T::read(unsigned int a) { sx_assert(a < 4096, "inside the EEPROM"); return deviceRead(a); }
void EEPROM_T::write(unsigned int a, byte v) { sx_assert(a < 4096, "inside the EEPROM"); deviceWrite(a, v); }

// I2C EEPROM: 16-bit addresses, writes wrap within a page of 32 bytes, no answer during the write cycle of 5 ms,
// and a Wire library with a buffer of 32 bytes.
namespace i2c {
  TwoWire *bus; byte device; bool begun, open, mine; int n; uint32_t b[64]; uint32_t pointer; unsigned long busy; int avail; int pageSize = 32;
}
TwoWire Wire, Wire1;
void TwoWire::begin() { if (this == i2c::bus) i2c::begun = true; }
void TwoWire::beginTransmission(byte a) { sx_assert(this == i2c::bus, "the configured bus"); sx_assert(i2c::begun, "the bus has been started"); sx_assert(a == i2c::device, "the configured device"); i2c::open = true; i2c::mine = env::now >= i2c::busy; i2c::n = 0; }
void TwoWire::write(int v) { sx_assert(i2c::open, "inside a transmission"); if (i2c::n < 32) i2c::b[i2c::n++] = v & 255; }
byte TwoWire::endTransmission()
{
  sx_assert(i2c::open, "a transmission is open"); i2c::open = false; if (!i2c::mine) return 2;
  if (i2c::n >= 2) { i2c::pointer = i2c::b[0] << 8 | i2c::b[1]; uint32_t page = i2c::pointer & ~(uint32_t)(i2c::pageSize - 1); for (int i = 2; i < i2c::n; i++) { deviceWrite(i2c::pointer, i2c::b[i]); i2c::pointer = page | ((i2c::pointer + 1) & (i2c::pageSize - 1)); } if (i2c::n > 2) i2c::busy = env::now + 5; }
  return 0;
}
void TwoWire::requestFrom(int a, int n) { sx_assert(this == i2c::bus && a == i2c::device, "the configured device"); i2c::avail = env::now >= i2c::busy ? (n > 32 ? 32 : n) : 0; }
bool TwoWire::available() { return i2c::avail > 0; }
byte TwoWire::read() { sx_assert(i2c::avail > 0, "only available bytes are read"); i2c::avail--; byte v = deviceRead(i2c::pointer); i2c::pointer = (i2c::pointer + 1) & 0xffff; return v; }

static Storage *external() { env::now = sx_u32("clock"); byte a = sx_u8("device"); i2c::device = a; i2c::bus = sx_fork(sx_bool("default bus")) ? &Wire : &Wire1; return i2c::bus == &Wire ? new EepromExternalStorage(a) : new EepromExternalStorage(a, &Wire1); }
CASE(C32_internal_2) { operations(new EepromInternalStorage, 4096, 2, 4); }
CASE(C32_internal_3) { operations(new EepromInternalStorage, 4096, 3, 2); }
CASE(C32_internal_long) { cell = sx_u16("cell"); cellValue = sx_u8("v"); byte d[255]; for (int i = 0; i < 255; i++) d[i] = sx_u8("d"); uint32_t a = sx_u16("a"); sx_assume(a + 255 <= 4096); Storage *s = new EepromInternalStorage; s->begin(); s->writeBytes(a, d, 255); byte e[255]; s->readBytes(a, 255, e); bool ok = true; for (int i = 0; i < 255; i++) ok = ok & ((cell != a + i) | (e[i] == d[i])); sx_assert(ok, "a long block is read back"); }
CASE(C32_internal_reset) { resets(new EepromInternalStorage, 4096); }
CASE(C32_external_1) { operations(external(), 65536, 1, 12); }
CASE(C32_external_2) { operations(external(), 65536, 2, 4); }
CASE(C32_external_pages) { int sizes[3] = {16, 64, 128}; i2c::pageSize = sizes[sx_fork(sx_range("page", 0, 2))]; operations(external(), 65536, 1, 7); }
// blocks of any length up to the longest there are; reads up to what the Wire library can buffer
static void externalLong(int lo, int hi, int rlo, int rhi)
{
  static const int offsets[5] = {0, 1, 13, 30, 31};
  Storage *s = external(); s->begin(); cell = sx_u16("cell"); cellValue = sx_u8("v"); byte d[255], e[32]; unsigned a = 32 * sx_range("page", 0, 2000) + offsets[sx_fork(sx_range("offset", 0, 4))]; int n = sx_fork(sx_range("n", lo, hi)), r = sx_fork(sx_range("r", rlo, rhi));
  for (int i = 0; i < n; i++) d[i] = sx_u8("d"); byte was = cellValue; s->writeBytes(a, d, n);
  byte want = was; for (int i = 0; i < n; i++) want = cell == a + i ? d[i] : want; sx_assert(cellValue == want, "every byte is stored at its place and no other is touched");
  env::now += 10; sx_assert(s->readBytes(a, r, e) == r, "all bytes are read"); bool ok = true; for (int i = 0; i < r; i++) ok = ok & ((cell != a + i) | (e[i] == want)); sx_assert(ok, "a block is read back");
}
// @case cost=20
CASE(C32_external_blocks) { externalLong(29, 34, 31, 32); }
// @case cost=20
CASE(C32_external_long) { externalLong(254, 255, 32, 32); }
// @case cost=20
CASE(C32_external_reset) { resets(external(), 4096); }
