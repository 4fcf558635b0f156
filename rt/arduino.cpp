#include "arduino.h"
#include <Streaming.h>
#include <SPI.h>
namespace env {
unsigned long now, delayed;
unsigned char pinIn[256], pinOut[256], pinModeOf[256]; unsigned int pinWrites[256];
char serialIn[512]; int serialInLen, serialInPos; char serialOut[1024]; int serialOutLen; bool captureStream;
Serial_T otherPort; char otherIn[128]; int otherInLen, otherInPos; char otherOut[256]; int otherOutLen;
}
unsigned long millis() { return env::now; }
void delay(unsigned int d) { env::delayed += d; env::now += d; }
byte highByte(unsigned int v) { return (byte)(v >> 8); }
byte lowByte(unsigned int v) { return (byte)v; }
void pinMode(int p, PinMode m) { env::pinModeOf[p & 255] = 1 + m; }
void digitalWrite(int p, int v) { env::pinOut[p & 255] = v ? 1 : 0; env::pinWrites[p & 255]++; }
byte digitalRead(int p) { return env::pinIn[p & 255]; }
void Serial_T::begin(int) {}
bool Serial_T::available() { if (this == &env::otherPort) return env::otherInPos < env::otherInLen; return env::serialInPos < env::serialInLen; }
char Serial_T::read() { if (this == &env::otherPort) return env::otherInPos < env::otherInLen ? env::otherIn[env::otherInPos++] : (char)-1; return env::serialInPos < env::serialInLen ? env::serialIn[env::serialInPos++] : (char)-1; }
void Serial_T::flush() {}
unsigned char Serial_T::readBytesUntil(int term, char *s, int len) {
  int n = 0;
  while (n < len && available()) { char c = read(); if (c == (char)term) break; s[n++] = c; }
  return (unsigned char)n;
}
static void put(const char *s) { for (int i = 0; s[i]; i++) if (env::serialOutLen < (int)sizeof env::serialOut - 1) { env::serialOut[env::serialOutLen++] = s[i]; env::serialOut[env::serialOutLen] = 0; } }
void Serial_T::print(const char *s) {
  if (this == &env::otherPort) { for (int i = 0; s[i]; i++) if (env::otherOutLen < 255) env::otherOut[env::otherOutLen++] = s[i]; }
  else put(s);
}
void Serial_T::println(const char *s) { put(s); put("\r\n"); }
Serial_T Serial;
ENDL_T endl;
Serial_T &operator<<(Serial_T &s, int) { return s; }
Serial_T &operator<<(Serial_T &s, unsigned int) { return s; }
Serial_T &operator<<(Serial_T &s, long) { return s; }
Serial_T &operator<<(Serial_T &s, unsigned long) { return s; }
Serial_T &operator<<(Serial_T &s, const char *t) { if (env::captureStream) put(t); return s; }
Serial_T &operator<<(Serial_T &s, const ENDL_T &) { if (env::captureStream) put("\n"); return s; }
void SPIClass::begin() {}
SPIClass SPI;
