// Stand-in for the DueFlashStorage library.
#pragma once
#include <Arduino.h>
struct DueFlashStorage { byte read(uint32_t address); bool write(uint32_t address, byte value); };
