// Reference GridConnect text and its meaning, from the format description.
#pragma once
#include <Arduino.h>
#include "GridConnect.h"
using namespace VLCB;
static inline char hexDigit(unsigned v) { v &= 15; return (char)(v < 10 ? '0' + v : 'A' + (v - 10)); }

// Reference text of a frame, from the format description.
static inline int refText(const CANFrame &f, char *t)
{
  int n = 0; t[n++] = ':';
  if (f.ext)
  {
    t[n++] = 'X';
    uint32_t id = f.id;
    uint32_t raw = ((id >> 21) & 0xff) << 24 | (((id >> 18) & 7) << 5 | ((id >> 16) & 3)) << 16 | (id & 0xffff);
    for (int i = 7; i >= 0; i--) t[n++] = hexDigit(raw >> (4 * i));
  }
  else
  {
    t[n++] = 'S';
    uint32_t raw = (f.id & 0x7ff) << 5;
    for (int i = 3; i >= 0; i--) t[n++] = hexDigit(raw >> (4 * i));
  }
  t[n++] = f.rtr ? 'R' : 'N';
  for (int i = 0; i < f.len; i++) { t[n++] = hexDigit(f.data[i] >> 4); t[n++] = hexDigit(f.data[i]); }
  t[n++] = ';'; t[n] = 0;
  return n;
}

static inline bool isHex(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')); }
static inline unsigned hexVal(char c) { return ((unsigned char)c < 'A' ? c - '0' : c - 'A' + 10) & 15; }

static inline bool refDecode(const char *t, int len, CANFrame &f)
{
  // every index below is < len
  if (len < 8) return false;
  bool x = t[1] == 'X', s = t[1] == 'S';
  if (!(t[0] == ':' && (x || s))) return false;
  int idn = x ? 8 : 4;
  if (len < 2 + idn + 2) return false;
  bool ok = true; for (int i = 0; i < idn; i++) ok = ok & isHex(t[2 + i]);
  char k = t[2 + idn]; ok = ok & ((k == 'N') | (k == 'R'));
  int nd = len - (2 + idn) - 2;
  if (nd & 1 || nd > 16) return false;
  for (int i = 0; i < nd; i++) ok = ok & isHex(t[3 + idn + i]);
  ok = ok & (t[len - 1] == ';');
  uint32_t raw = 0; for (int i = 0; i < idn; i++) raw = raw << 4 | hexVal(t[2 + i]);
  f.id = x ? (raw >> 24) << 21 | ((raw >> 21) & 7) << 18 | ((raw >> 16) & 3) << 16 | (raw & 0xffff) : raw >> 5;
  f.ext = x; f.rtr = k == 'R'; f.len = nd / 2;
  for (int i = 0; i < nd / 2; i++) f.data[i] = hexVal(t[3 + idn + 2 * i]) << 4 | hexVal(t[4 + idn + 2 * i]);
  return ok;
}
