// Stand-in for DxCore's Flash.h: a flash memory whose writes only clear bits until a page is erased.
#pragma once
#include <Arduino.h>
#define FLASHWRITE_OK 0
#define PROGMEM_SIZE 0x20000
struct FlashClass
{
  uint8_t checkWritable();
  uint8_t readByte(uint32_t address);
  uint8_t erasePage(uint32_t address, uint8_t size);
  uint8_t writeBytes(uint32_t address, uint8_t *data, uint16_t length);
};
extern FlashClass Flash;
