// Arduino environment of the harnesses: clock, pins, serial port, EEPROM, Wire.
// Everything observable is recorded in plain variables the harness inspects.
#pragma once
#include <Arduino.h>
#include "sx.h"
namespace env {
extern unsigned long now;              // value returned by millis()
extern unsigned long delayed;          // sum of delay() arguments
extern unsigned char pinIn[256];       // value digitalRead returns
extern unsigned char pinOut[256];      // last value digitalWrite wrote
extern unsigned char pinModeOf[256];   // last pinMode (1 + mode), 0 = never
extern unsigned int pinWrites[256];
// serial input script and captured output
extern char serialIn[512]; extern int serialInLen, serialInPos;
extern char serialOut[1024]; extern int serialOutLen;
// a second serial port
extern Serial_T otherPort; extern char otherIn[128]; extern int otherInLen, otherInPos; extern char otherOut[256]; extern int otherOutLen;
extern bool captureStream;             // also capture Streaming << output
}
