// Emulated EEPROM of the Arduino Due: C32.
// @source DueEepromEmulationStorage.cpp
// @flags -D__SAM3X8E__
#include <Arduino.h>
#include "DueEepromEmulationStorage.h"
#include "arduino.h"
#include "probe.h"
byte DueFlashStorage::read(uint32_t a) { return deviceRead(a); }
bool DueFlashStorage::write(uint32_t a, byte v) { deviceWrite(a, v); return true; }
CASE(C32_due_2) { operations(new DueEepromEmulationStorage, 4096, 2, 4); }
CASE(C32_due_reset) { resets(new DueEepromEmulationStorage, 4096); }
