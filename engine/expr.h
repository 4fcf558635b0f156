// Hash-consed bit-vector expressions (width 1..64) with constant folding,
// known-bit and interval reasoning.  All symbolic values of the engine are
// nodes of this DAG; the SMT solver only sees what these rules leave.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
               SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT, AGG };

static const char *opName(u8 o) {
  static const char *n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor",
    "shl","lshr","ashr","eq","ult","slt","ite","concat","extract","zext","sext","agg"};
  return n[o];
}

typedef std::vector<u32> VarSet; // sorted

struct Expr {
  u8 op, w;
  u8 lo;
  u32 id;
  Expr *k[3];
  u64 v;            // const value / var index
  u64 kz, ko;       // known zero / one bits
  u64 umin, umax;
  const VarSet *vars; // lazily
  std::vector<Expr *> *agg;
  bool isConst() const { return op == CONST; }
  bool isTrue() const { return op == CONST && w == 1 && v == 1; }
  bool isFalse() const { return op == CONST && w == 1 && v == 0; }
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct ExprCtx {
  std::vector<Expr *> table; // open addressing
  size_t count = 0;
  u32 nextId = 1;
  struct VarInfo { std::string name; u8 w; Expr *e; };
  std::vector<VarInfo> vars;
  std::unordered_map<std::string, u32> varByName;
  std::vector<Expr *> all;
  Expr *bytes[256];
  Expr *T, *F;

  ExprCtx() {
    table.assign(1 << 16, nullptr);
    for (int i = 0; i < 256; i++) bytes[i] = intern(CONST, 8, 0, 0, 0, 0, i);
    F = intern(CONST, 1, 0, 0, 0, 0, 0);
    T = intern(CONST, 1, 0, 0, 0, 0, 1);
  }
  static u64 hashOf(u8 op, u8 w, u8 lo, Expr *a, Expr *b, Expr *c, u64 v) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 0xff51afd7ed558ccdull + lo * 0xc4ceb9fe1a85ec53ull;
    h ^= (a ? a->id : 0) * 0x9ddfea08eb382d69ull; h = (h << 13) | (h >> 51);
    h ^= (b ? b->id : 0) * 0x87c37b91114253d5ull; h = (h << 17) | (h >> 47);
    h ^= (c ? c->id : 0) * 0x4cf5ad432745937full; h = (h << 11) | (h >> 53);
    h ^= v * 0xbf58476d1ce4e5b9ull;
    h ^= h >> 31; h *= 0x94d049bb133111ebull; h ^= h >> 29;
    return h;
  }
  void grow() {
    std::vector<Expr *> nt(table.size() * 2, nullptr);
    size_t m = nt.size() - 1;
    for (Expr *e : table) if (e) {
      size_t i = hashOf(e->op, e->w, e->lo, e->k[0], e->k[1], e->k[2], e->v) & m;
      while (nt[i]) i = (i + 1) & m;
      nt[i] = e;
    }
    table.swap(nt);
  }
  Expr *intern(u8 op, u8 w, u8 lo, Expr *a, Expr *b, Expr *c, u64 v) {
    size_t m = table.size() - 1;
    size_t i = hashOf(op, w, lo, a, b, c, v) & m;
    while (Expr *e = table[i]) {
      if (e->op == op && e->w == w && e->lo == lo && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->v == v) return e;
      i = (i + 1) & m;
    }
    Expr *e = new Expr();
    e->op = op; e->w = w; e->lo = lo; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->v = v;
    e->id = nextId++; e->vars = nullptr; e->agg = nullptr;
    bits(e);
    if (op != CONST && e->umin == e->umax) {
      // Known to be constant: return the constant instead (node is not interned).
      u64 cv = e->umin; delete e; nextId--;
      return C(cv, w);
    }
    table[i] = e;
    if (++count * 2 > table.size()) grow();
    all.push_back(e);
    return e;
  }
  Expr *C(u64 v, unsigned w) { return intern(CONST, w, 0, 0, 0, 0, v & maskw(w)); }
  Expr *B(bool b) { return b ? T : F; }
  Expr *Var(const std::string &name, unsigned w) {
    std::string key = name + ":" + std::to_string(w);
    auto it = varByName.find(key);
    if (it != varByName.end()) return vars[it->second].e;
    u32 idx = vars.size();
    Expr *e = intern(VAR, w, 0, 0, 0, 0, idx);
    vars.push_back({name, (u8)w, e});
    varByName[key] = idx;
    return e;
  }

  void bits(Expr *e) {
    u64 M = maskw(e->w);
    Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
    u64 kz = 0, ko = 0, mn = 0, mx = M;
    switch (e->op) {
    case CONST: kz = ~e->v & M; ko = e->v; mn = mx = e->v; break;
    case VAR: break;
    case AGG: e->kz = e->ko = 0; e->umin = 0; e->umax = 1; return;
    case ADD: {
      if (b->isConst() && M - b->v < a->umin) { // always wraps
        mn = (a->umin + b->v) & M; mx = (a->umax + b->v) & M;
      } else if (a->umax <= M - b->umax) { mn = a->umin + b->umin; mx = a->umax + b->umax; }
      u64 t = (a->kz & b->kz); int n = 0; while (n < e->w && (t >> n & 1)) n++;
      // low bits where both known
      u64 ka = a->kz | a->ko, kb = b->kz | b->ko, kk = ka & kb; int m = 0; while (m < e->w && (kk >> m & 1)) m++;
      u64 mm = m ? maskw(m) : 0; u64 s = (a->ko + b->ko) & mm;
      kz |= ~s & mm; ko |= s & mm; if (n) kz |= maskw(n);
      break; }
    case SUB: if (a->umin >= b->umax) { mn = a->umin - b->umax; mx = a->umax - b->umin; }
      { u64 t = (a->kz & b->kz); int n = 0; while (n < e->w && (t >> n & 1)) n++; if (n) kz |= maskw(n); }
      break;
    case MUL: {
      unsigned __int128 p = (unsigned __int128)a->umax * b->umax;
      if (p <= M) { mn = a->umin * b->umin; mx = (u64)p; }
      int n = 0; while (n < e->w && (a->kz >> n & 1)) n++;
      int m = 0; while (m < e->w && (b->kz >> m & 1)) m++;
      int t = std::min<int>(n + m, e->w); if (t) kz |= maskw(t);
      break; }
    case UDIV: if (b->umin > 0) { mn = a->umin / b->umax; mx = a->umax / b->umin; } break;
    case UREM: if (b->umin > 0) { mx = std::min(a->umax, b->umax - 1); if (a->umax < b->umin) { mn = a->umin; mx = a->umax; } } break;
    case SDIV: case SREM: break;
    case AND: kz = a->kz | b->kz; ko = a->ko & b->ko; mx = std::min(a->umax, b->umax); break;
    case OR: kz = a->kz & b->kz; ko = a->ko | b->ko; mn = std::max(a->umin, b->umin); break;
    case XOR: kz = (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
    case SHL: case LSHR: case ASHR:
      if (e->op == LSHR) mx = a->umax; break;
    case EQ: case ULT: case SLT: break;
    case ITE: kz = b->kz & c->kz; ko = b->ko & c->ko; mn = std::min(b->umin, c->umin); mx = std::max(b->umax, c->umax); break;
    case CONCAT: kz = (a->kz << b->w) | b->kz; ko = (a->ko << b->w) | b->ko;
      mn = (a->umin << b->w) + b->umin; mx = (a->umax << b->w) + b->umax; break;
    case EXTRACT: kz = (a->kz >> e->lo) & M; ko = (a->ko >> e->lo) & M;
      if (e->lo == 0) { if (a->umax <= M) { mn = a->umin; mx = a->umax; } }
      else if ((a->umax >> e->lo) <= M) { mn = a->umin >> e->lo; mx = a->umax >> e->lo; }
      break;
    case ZEXT: kz = a->kz | (M & ~maskw(a->w)); ko = a->ko; mn = a->umin; mx = a->umax; break;
    case SEXT: {
      u64 hi = M & ~maskw(a->w); u64 s = 1ull << (a->w - 1);
      kz = a->kz; ko = a->ko;
      if (a->kz & s) { kz |= hi; mn = a->umin; mx = a->umax; }
      else if (a->ko & s) { ko |= hi; }
      break; }
    }
    kz &= M; ko &= M;
    mn = std::max(mn, ko); mx = std::min(mx, ~kz & M);
    if (mx < M) { int hb = mx ? 64 - __builtin_clzll(mx) : 0; kz |= M & ~(hb ? maskw(hb) : 0); }
    e->kz = kz; e->ko = ko; e->umin = mn; e->umax = mx;
  }

  // ---- constructors -------------------------------------------------------
  Expr *Not(Expr *a) { // boolean or bitwise
    return Xor(a, C(~0ull, a->w));
  }
  Expr *Add(Expr *a, Expr *b) {
    if (a->isConst()) std::swap(a, b);
    unsigned w = a->w;
    if (b->isConst()) {
      if (a->isConst()) return C(a->v + b->v, w);
      if (b->v == 0) return a;
      if (a->op == ADD && a->k[1]->isConst()) return Add(a->k[0], C(a->k[1]->v + b->v, w));
      if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst())
        return Ite(a->k[0], C(a->k[1]->v + b->v, w), C(a->k[2]->v + b->v, w));
      if (((a->kz | b->kz) & maskw(w)) == maskw(w)) return Or(a, b);
    } else {
      if (a->op == ADD && a->k[1]->isConst()) return Add(Add(a->k[0], b), a->k[1]);
      if (b->op == ADD && b->k[1]->isConst()) return Add(Add(a, b->k[0]), b->k[1]);
      if (b->op == SUB && b->k[1] == a) return b->k[0];
      if (a->op == SUB && a->k[1] == b) return a->k[0];
      if (((a->kz | b->kz) & maskw(w)) == maskw(w)) return Or(a, b);
      if (a->id > b->id) std::swap(a, b);
    }
    if (w == 1) return Xor(a, b);
    return intern(ADD, w, 0, a, b, 0, 0);
  }
  // the summands of a; -1 if there are too many
  static int terms(Expr *a, Expr **t, int n) {
    if (a->op == ADD) { n = terms(a->k[0], t, n); return n < 0 ? -1 : terms(a->k[1], t, n); }
    if (n == 16) return -1;
    t[n] = a; return n + 1;
  }
  Expr *Sub(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (w == 1) return Xor(a, b);
    if (b->isConst()) return Add(a, C(-b->v, w));
    if (a == b) return C(0, w);
    if (a->op == ADD && a->k[1]->isConst()) return Add(Sub(a->k[0], b), a->k[1]);
    if (b->op == ADD && b->k[1]->isConst()) return Add(Sub(a, b->k[0]), C(-b->k[1]->v, w));
    if (a->op == ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    if (b->op == ADD) { if (b->k[0] == a) return Sub(C(0, w), b->k[1]); if (b->k[1] == a) return Sub(C(0, w), b->k[0]); }
    if (a->op == ADD || b->op == ADD) { // cancel common terms of two sums
      Expr *ta[16], *tb[16]; int na = terms(a, ta, 0), nb = na < 0 ? -1 : terms(b, tb, 0);
      if (nb > 0) {
        bool hit = false;
        for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) if (ta[i] && ta[i] == tb[j]) { ta[i] = tb[j] = nullptr; hit = true; break; }
        if (hit) {
          Expr *x = C(0, w), *y = C(0, w);
          for (int i = 0; i < na; i++) if (ta[i]) x = Add(x, ta[i]);
          for (int j = 0; j < nb; j++) if (tb[j]) y = Add(y, tb[j]);
          return Sub(x, y);
        }
      }
    }
    return intern(SUB, w, 0, a, b, 0, 0);
  }
  Expr *Mul(Expr *a, Expr *b) {
    if (a->isConst()) std::swap(a, b);
    unsigned w = a->w;
    if (b->isConst()) {
      if (a->isConst()) return C(a->v * b->v, w);
      if (b->v == 0) return b;
      if (b->v == 1) return a;
      if ((b->v & (b->v - 1)) == 0) return Shl(a, C(__builtin_ctzll(b->v), w));
      if (a->op == MUL && a->k[1]->isConst()) return Mul(a->k[0], C(a->k[1]->v * b->v, w));
      if (a->op == ADD && a->k[1]->isConst()) return Add(Mul(a->k[0], b), C(a->k[1]->v * b->v, w));
      if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst())
        return Ite(a->k[0], C(a->k[1]->v * b->v, w), C(a->k[2]->v * b->v, w));
    } else if (a->id > b->id) std::swap(a, b);
    if (w == 1) return And(a, b);
    return intern(MUL, w, 0, a, b, 0, 0);
  }
  Expr *UDiv(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (b->isConst() && b->v) {
      if (a->isConst()) return C(a->v / b->v, w);
      if (b->v == 1) return a;
      if ((b->v & (b->v - 1)) == 0) return LShr(a, C(__builtin_ctzll(b->v), w));
      if (a->umax < b->v) return C(0, w);
      // narrow the division when the value fits
      unsigned hb = std::max(64 - __builtin_clzll(a->umax | 1), 64 - __builtin_clzll(b->v | 1));
      if (hb < w) return ZExt(UDiv(Extract(a, 0, hb), C(b->v, hb)), w);
    }
    return intern(UDIV, w, 0, a, b, 0, 0);
  }
  Expr *URem(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (b->isConst() && b->v) {
      if (a->isConst()) return C(a->v % b->v, w);
      if (b->v == 1) return C(0, w);
      if ((b->v & (b->v - 1)) == 0) return And(a, C(b->v - 1, w));
      if (a->umax < b->v) return a;
      unsigned hb = std::max(64 - __builtin_clzll(a->umax | 1), 64 - __builtin_clzll(b->v | 1));
      if (hb < w) return ZExt(URem(Extract(a, 0, hb), C(b->v, hb)), w);
    }
    if (b->umin > a->umax) return a;
    return intern(UREM, w, 0, a, b, 0, 0);
  }
  bool nonneg(Expr *a) { return (a->kz >> (a->w - 1)) & 1; }
  bool neg(Expr *a) { return (a->ko >> (a->w - 1)) & 1; }
  Expr *SDiv(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst() && b->v) { i64 x = sx(a->v, w), y = sx(b->v, w); if (y == -1) return C(-(u64)x, w); return C((u64)(x / y), w); }
    if (nonneg(a) && nonneg(b)) return UDiv(a, b);
    return intern(SDIV, w, 0, a, b, 0, 0);
  }
  Expr *SRem(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a->isConst() && b->isConst() && b->v) { i64 x = sx(a->v, w), y = sx(b->v, w); if (y == -1) return C(0, w); return C((u64)(x % y), w); }
    if (nonneg(a) && nonneg(b)) return URem(a, b);
    return intern(SREM, w, 0, a, b, 0, 0);
  }
  static bool lowMask(u64 m, unsigned &n) { if (m == 0) return false; if ((m & (m + 1)) == 0) { n = m == ~0ull ? 64 : __builtin_ctzll(~m); return true; } return false; }
  Expr *And(Expr *a, Expr *b) {
    if (a->op == CONST && b->op == CONST) return And_(a, b);
    return memoized(5, pairKey(a, b), [&] { return And_(a, b); });
  }
  Expr *And_(Expr *a, Expr *b) {
    if (a->isConst()) std::swap(a, b);
    unsigned w = a->w; u64 M = maskw(w);
    if (a == b) return a;
    if (b->isConst()) {
      if (a->isConst()) return C(a->v & b->v, w);
      u64 m = b->v;
      if (m == 0) return b;
      if (((m | a->kz) & M) == M) return a;
      if (w > 1) {
        if (a->op == AND && a->k[1]->isConst()) return And(a->k[0], C(m & a->k[1]->v, w));
        if (a->op == ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return Ite(a->k[0], And(a->k[1], b), And(a->k[2], b));
        unsigned tz = __builtin_ctzll(m), n;
        u64 need = m; // contiguous?
        if (lowMask(need >> tz, n) && tz + n <= w) {
          Expr *mid = Extract(a, tz, n);
          Expr *r = tz ? Concat(mid, C(0, tz)) : mid;
          return r->w < w ? ZExt(r, w) : r;
        }
      }
    } else {
      if (w == 1) {
        if (isNotOf(a, b)) return F;
        if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return b;
        if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return a;
      }
      if (((a->kz | b->kz) & M) == M) return C(0, w);
      if (a->id > b->id) std::swap(a, b);
    }
    return intern(AND, w, 0, a, b, 0, 0);
  }
  bool isNotOf(Expr *a, Expr *b) {
    u64 M = maskw(a->w);
    return (a->op == XOR && a->k[0] == b && a->k[1]->isConst() && a->k[1]->v == M) ||
           (b->op == XOR && b->k[0] == a && b->k[1]->isConst() && b->k[1]->v == M);
  }
  Expr *Or(Expr *a, Expr *b) {
    if (a->isConst()) std::swap(a, b);
    unsigned w = a->w; u64 M = maskw(w);
    if (a == b) return a;
    if (b->isConst()) {
      if (a->isConst()) return C(a->v | b->v, w);
      if (b->v == 0) return a;
      if (b->v == M) return b;
      if (((b->v & ~a->ko) & M) == 0) return a;
      if (w > 1 && a->op == OR && a->k[1]->isConst()) return Or(a->k[0], C(a->k[1]->v | b->v, w));
    }
    if (w == 1) {
      if (isNotOf(a, b)) return T;
      if (a->op == AND) { // (x & y) | !x -> y | !x
        if (isNotOf(a->k[0], b)) return Or(a->k[1], b);
        if (isNotOf(a->k[1], b)) return Or(a->k[0], b);
        if (a->k[0] == b || a->k[1] == b) return b;
      }
      if (b->op == AND) {
        if (isNotOf(b->k[0], a)) return Or(b->k[1], a);
        if (isNotOf(b->k[1], a)) return Or(b->k[0], a);
        if (b->k[0] == a || b->k[1] == a) return a;
      }
      if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return b;
    } else if (((a->kz | b->kz) & M) == M) {
      // disjoint bits: try to express as a concatenation
      for (int t = 0; t < 2; t++) {
        Expr *hi = t ? b : a, *lo = t ? a : b;
        unsigned s = lo->umax ? 64 - __builtin_clzll(lo->umax) : 0; // lo uses bits < s
        if (s && s < w && (hi->kz & maskw(s)) == maskw(s)) return Concat(Extract(hi, s, w - s), Extract(lo, 0, s));
      }
      // try splitting at byte boundaries
      for (unsigned s = 8; s < w; s += 8) {
        Expr *l1 = Extract(a, 0, s), *l2 = Extract(b, 0, s);
        if (l1->isConst() || l2->isConst()) return Concat(Or(Extract(a, s, w - s), Extract(b, s, w - s)), Or(l1, l2));
      }
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return intern(OR, w, 0, a, b, 0, 0);
  }
  Expr *Xor(Expr *a, Expr *b) {
    if (a->isConst()) std::swap(a, b);
    unsigned w = a->w; u64 M = maskw(w);
    if (a == b) return C(0, w);
    if (b->isConst()) {
      if (a->isConst()) return C(a->v ^ b->v, w);
      if (b->v == 0) return a;
      if (a->op == XOR && a->k[1]->isConst()) return Xor(a->k[0], C(a->k[1]->v ^ b->v, w));
      if (a->op == ITE && (a->k[1]->isConst() && a->k[2]->isConst())) return Ite(a->k[0], Xor(a->k[1], b), Xor(a->k[2], b));
    } else {
      if (isNotOf(a, b)) return C(M, w);
      if (a->op == XOR && a->k[1]->isConst()) return Xor(Xor(a->k[0], b), a->k[1]);
      if (b->op == XOR && b->k[1]->isConst()) return Xor(Xor(a, b->k[0]), b->k[1]);
      if (a->id > b->id) std::swap(a, b);
    }
    return intern(XOR, w, 0, a, b, 0, 0);
  }
  Expr *Shl(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (b->isConst()) {
      if (b->v == 0) return a;
      if (b->v >= w) return C(0, w);
      return Concat(Extract(a, 0, w - b->v), C(0, b->v));
    }
    return intern(SHL, w, 0, a, b, 0, 0);
  }
  Expr *LShr(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (b->isConst()) {
      if (b->v == 0) return a;
      if (b->v >= w) return C(0, w);
      return ZExt(Extract(a, b->v, w - b->v), w);
    }
    if (a->isConst() && a->v == 0) return a;
    return intern(LSHR, w, 0, a, b, 0, 0);
  }
  Expr *AShr(Expr *a, Expr *b) {
    unsigned w = a->w;
    if (b->isConst()) {
      u64 s = b->v; if (s >= w) s = w - 1;
      if (s == 0) return a;
      return SExt(Extract(a, s, w - s), w);
    }
    if (nonneg(a)) return LShr(a, b);
    return intern(ASHR, w, 0, a, b, 0, 0);
  }
  Expr *Eq(Expr *a, Expr *b) {
    if (a->op == CONST && b->op == CONST) return Eq_(a, b);
    return memoized(1, pairKey(a, b), [&] { return Eq_(a, b); });
  }
  Expr *Eq_(Expr *a, Expr *b) {
    if (a == b) return T;
    if (a->isConst()) std::swap(a, b);
    unsigned w = a->w;
    if ((a->ko & b->kz) || (a->kz & b->ko)) return F;
    if (a->umax < b->umin || b->umax < a->umin) return F;
    if (b->isConst()) {
      if (a->isConst()) return B(a->v == b->v);
      if (w == 1) return b->v ? a : Not(a);
      switch (a->op) {
      case ZEXT: return Eq(a->k[0], C(b->v, a->k[0]->w));
      case SEXT: {
        Expr *i = a->k[0];
        if ((u64)sx(b->v & maskw(i->w), i->w) != (u64)sx(b->v, w)) return F;
        return Eq(i, C(b->v, i->w)); }
      case ADD: if (a->k[1]->isConst()) return Eq(a->k[0], C(b->v - a->k[1]->v, w)); break;
      case SUB: if (a->k[0]->isConst()) return Eq(a->k[1], C(a->k[0]->v - b->v, w));
        if (b->v == 0) return Eq(a->k[0], a->k[1]); break;
      case XOR: if (a->k[1]->isConst()) return Eq(a->k[0], C(b->v ^ a->k[1]->v, w));
        if (b->v == 0) return Eq(a->k[0], a->k[1]); break;
      case CONCAT: { Expr *h = a->k[0], *l = a->k[1];
        return And(Eq(h, C(b->v >> l->w, h->w)), Eq(l, C(b->v, l->w))); }
      case ITE: {
        Expr *x = a->k[1], *y = a->k[2];
        if (x->isConst()) return x->v == b->v ? Or(a->k[0], Eq(y, b)) : And(Not(a->k[0]), Eq(y, b));
        if (y->isConst()) return y->v == b->v ? Or(Not(a->k[0]), Eq(x, b)) : And(a->k[0], Eq(x, b));
        Expr *ex = Eq(x, b), *ey = Eq(y, b);
        if (ex->isConst() || ey->isConst()) return Ite(a->k[0], ex, ey);
        break; }
      }
      return intern(EQ, 1, 0, a, b, 0, 0);
    }
    if (w == 1) return Not(Xor(a, b));
    if (a->op == ZEXT && b->op == ZEXT) {
      Expr *x = a->k[0], *y = b->k[0];
      if (x->w < y->w) x = ZExt(x, y->w); else if (y->w < x->w) y = ZExt(y, x->w);
      return Eq(x, y);
    }
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return Eq(a->k[0], b->k[0]);
    if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w)
      return And(Eq(a->k[0], b->k[0]), Eq(a->k[1], b->k[1]));
    if (a->op == ADD && b->op == ADD) {
      if (a->k[1] == b->k[1]) return Eq(a->k[0], b->k[0]);
      if (a->k[0] == b->k[0]) return Eq(a->k[1], b->k[1]);
    }
    // use known high zero bits to narrow
    {
      u64 mx = std::max(a->umax, b->umax);
      unsigned hb = mx ? 64 - __builtin_clzll(mx) : 1;
      if (hb < w) return Eq(Extract(a, 0, hb), Extract(b, 0, hb));
    }
    if (a->op == ITE && b->op == ITE && a->k[0] == b->k[0]) return Ite(a->k[0], Eq(a->k[1], b->k[1]), Eq(a->k[2], b->k[2]));
    if (a->op == ITE && (a->k[1] == b || a->k[2] == b)) return Ite(a->k[0], Eq(a->k[1], b), Eq(a->k[2], b));
    if (b->op == ITE && (b->k[1] == a || b->k[2] == a)) return Ite(b->k[0], Eq(b->k[1], a), Eq(b->k[2], a));
    if (a->id > b->id) std::swap(a, b);
    return intern(EQ, 1, 0, a, b, 0, 0);
  }
  Expr *Ult(Expr *a, Expr *b) {
    if (a->op == CONST && b->op == CONST) return Ult_(a, b);
    return memoized(2, pairKey(a, b), [&] { return Ult_(a, b); });
  }
  Expr *Ult_(Expr *a, Expr *b) {
    if (a == b) return F;
    unsigned w = a->w;
    if (a->umax < b->umin) return T;
    if (a->umin >= b->umax) return F;
    if (w == 1) return And(Not(a), b);
    if (b->isConst() && b->v == 1) return Eq(a, C(0, w));
    if (a->isConst() && a->v == 0) return Not(Eq(b, a));
    if (b->isConst() && b->v == maskw(w)) return Not(Eq(a, b));
    if (a->op == ZEXT && b->op == ZEXT) {
      Expr *x = a->k[0], *y = b->k[0];
      if (x->w < y->w) x = ZExt(x, y->w); else if (y->w < x->w) y = ZExt(y, x->w);
      return Ult(x, y);
    }
    u64 mx = std::max(a->umax, b->umax);
    unsigned hb = mx ? 64 - __builtin_clzll(mx) : 1;
    if (hb < w) return Ult(Extract(a, 0, hb), Extract(b, 0, hb));
    if (a->op == ITE && b->isConst()) {
      Expr *x = Ult(a->k[1], b), *y = Ult(a->k[2], b);
      if (x->isConst() || y->isConst()) return Ite(a->k[0], x, y);
    }
    if (b->op == ITE && a->isConst()) {
      Expr *x = Ult(a, b->k[1]), *y = Ult(a, b->k[2]);
      if (x->isConst() || y->isConst()) return Ite(b->k[0], x, y);
    }
    return intern(ULT, 1, 0, a, b, 0, 0);
  }
  Expr *Ule(Expr *a, Expr *b) { return Not(Ult(b, a)); }
  Expr *Slt(Expr *a, Expr *b) {
    if (a->op == CONST && b->op == CONST) return Slt_(a, b);
    return memoized(3, pairKey(a, b), [&] { return Slt_(a, b); });
  }
  Expr *Slt_(Expr *a, Expr *b) {
    if (a == b) return F;
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return B(sx(a->v, w) < sx(b->v, w));
    if ((nonneg(a) && nonneg(b)) || (neg(a) && neg(b))) return Ult(a, b);
    if (nonneg(a) && neg(b)) return F;
    if (neg(a) && nonneg(b)) return T;
    if (w == 1) return And(a, Not(b));
    if (b->isConst() && b->v == 0) return Extract(a, w - 1, 1);
    if (a->isConst() && a->v == maskw(w)) return Not(Extract(b, w - 1, 1)); // -1 < b
    if (a->op == SEXT && b->op == SEXT) {
      Expr *x = a->k[0], *y = b->k[0];
      if (x->w < y->w) x = SExt(x, y->w); else if (y->w < x->w) y = SExt(y, x->w);
      return Slt(x, y);
    }
    if (a->op == ITE && b->isConst()) {
      Expr *x = Slt(a->k[1], b), *y = Slt(a->k[2], b);
      if (x->isConst() || y->isConst()) return Ite(a->k[0], x, y);
    }
    if (b->op == ITE && a->isConst()) {
      Expr *x = Slt(a, b->k[1]), *y = Slt(a, b->k[2]);
      if (x->isConst() || y->isConst()) return Ite(b->k[0], x, y);
    }
    return intern(SLT, 1, 0, a, b, 0, 0);
  }
  Expr *Sle(Expr *a, Expr *b) { return Not(Slt(b, a)); }
  Expr *Ite(Expr *c, Expr *a, Expr *b) {
    if (c->isConst()) return c->v ? a : b;
    if (a == b) return a;
    if (a->op == AGG || b->op == AGG) {
      if (!a->agg || !b->agg || a->agg->size() != b->agg->size()) { fprintf(stderr, "agg ite mismatch\n"); abort(); }
      std::vector<Expr *> v;
      for (size_t i = 0; i < a->agg->size(); i++) v.push_back(Ite(c, (*a->agg)[i], (*b->agg)[i]));
      return Agg(v);
    }
    if (c->op == XOR && c->k[1]->isConst()) { c = c->k[0]; std::swap(a, b); }
    unsigned w = a->w;
    if (w == 1) {
      if (a->isTrue()) return b->isFalse() ? c : Or(c, b);
      if (a->isFalse()) return b->isTrue() ? Not(c) : And(Not(c), b);
      if (b->isFalse()) return And(c, a);
      if (b->isTrue()) return Or(Not(c), a);
      if (a == c) return Or(c, b);
      if (b == c) return And(c, a);
    }
    if (a->op == ITE && a->k[0] == c) a = a->k[1];
    if (b->op == ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (b->op == ITE && b->k[1] == a) return Ite(Or(c, b->k[0]), a, b->k[2]);
    if (b->op == ITE && b->k[2] == a) return Ite(And(Not(c), b->k[0]), b->k[1], a);
    if (a->op == ITE && a->k[1] == b) return Ite(And(c, Not(a->k[0])), a->k[2], b);
    if (a->op == ITE && a->k[2] == b) return Ite(And(c, a->k[0]), a->k[1], b);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return ZExt(Ite(c, a->k[0], b->k[0]), w);
    return intern(ITE, w, 0, c, a, b, 0);
  }
  Expr *Extract(Expr *a, unsigned lo, unsigned n) {
    if (lo == 0 && n == a->w) return a;
    if (a->op == CONST) return C(a->v >> lo, n);
    if (a->op == VAR) return intern(EXTRACT, n, lo, a, 0, 0, 0);
    return memoized(0, ((u64)a->id << 16) | (lo << 8) | n, [&] { return Extract_(a, lo, n); });
  }
  // Byte i of n of a stored value; sums are kept whole so that a load joins them again.
  Expr *piece(Expr *a, unsigned i, unsigned n) {
    if (n > 1 && i == 0 && (a->op == ADD || a->op == SUB || a->op == MUL) && a->umax > 255) return intern(EXTRACT, 8, 0, a, 0, 0, 0);
    if (n > 1 && a->op == ITE) return Ite(a->k[0], piece(a->k[1], i, n), piece(a->k[2], i, n));
    return Extract(a, 8 * i, 8);
  }
  Expr *Extract_(Expr *a, unsigned lo, unsigned n) {
    switch (a->op) {
    case CONST: return C(a->v >> lo, n);
    case EXTRACT: return Extract(a->k[0], a->lo + lo, n);
    case CONCAT: {
      Expr *h = a->k[0], *l = a->k[1];
      if (lo >= l->w) return Extract(h, lo - l->w, n);
      if (lo + n <= l->w) return Extract(l, lo, n);
      return Concat(Extract(h, 0, lo + n - l->w), Extract(l, lo, l->w - lo)); }
    case ZEXT: {
      Expr *i = a->k[0];
      if (lo >= i->w) return C(0, n);
      if (lo + n <= i->w) return Extract(i, lo, n);
      return ZExt(Extract(i, lo, i->w - lo), n); }
    case SEXT: {
      Expr *i = a->k[0];
      if (lo + n <= i->w) return Extract(i, lo, n);
      if (lo < i->w) return SExt(Extract(i, lo, i->w - lo), n);
      return SExt(Extract(i, i->w - 1, 1), n); }
    case ITE:
      if (a->k[1]->isConst() || a->k[2]->isConst() || a->k[1]->op == CONCAT || a->k[1]->op == ZEXT || a->k[2]->op == CONCAT || a->k[2]->op == ZEXT || a->k[1]->op==ITE || a->k[2]->op==ITE)
        return Ite(a->k[0], Extract(a->k[1], lo, n), Extract(a->k[2], lo, n));
      break;
    case AND: return And(Extract(a->k[0], lo, n), Extract(a->k[1], lo, n));
    case OR: return Or(Extract(a->k[0], lo, n), Extract(a->k[1], lo, n));
    case XOR: return Xor(Extract(a->k[0], lo, n), Extract(a->k[1], lo, n));
    case ADD: if (lo == 0) return Add(Extract(a->k[0], 0, n), Extract(a->k[1], 0, n)); break;
    case SUB: if (lo == 0) return Sub(Extract(a->k[0], 0, n), Extract(a->k[1], 0, n)); break;
    case MUL: if (lo == 0) return Mul(Extract(a->k[0], 0, n), Extract(a->k[1], 0, n)); break;
    default: break;
    }
    return intern(EXTRACT, n, lo, a, 0, 0, 0);
  }
  // Memo tables for the constructors that push through shared sub-DAGs.
  std::unordered_map<u64, Expr *> memo[8];
  template <class Fn> Expr *memoized(int t, u64 key, Fn f) {
    auto it = memo[t].find(key);
    if (it != memo[t].end()) return it->second;
    Expr *r = f();
    memo[t][key] = r;
    return r;
  }
  static u64 pairKey(Expr *a, Expr *b) { return ((u64)a->id << 32) | b->id; }
  // Try to merge two adjacent pieces into one expression, or null.
  Expr *tryJoin(Expr *h, Expr *l) {
    if (h->isConst() && l->isConst()) return C((h->v << l->w) | l->v, h->w + l->w);
    if (h->op == EXTRACT && l->op == EXTRACT && h->k[0] == l->k[0] && h->lo == l->lo + l->w)
      return Extract(h->k[0], l->lo, h->w + l->w);
    if (h->op == ITE && l->op == ITE && h->k[0] == l->k[0])
      return Ite(h->k[0], Concat(h->k[1], l->k[1]), Concat(h->k[2], l->k[2]));
    // sign extension pieces: h = sext(extract(x, top, 1)), l = x or sext...
    if (h->op == SEXT && h->k[0]->op == EXTRACT && h->k[0]->w == 1) {
      Expr *s = h->k[0];
      if (s->k[0] == l && s->lo == l->w - 1) return SExt(l, h->w + l->w);
      if (l->op == EXTRACT && l->k[0] == s->k[0] && s->lo == l->lo + l->w - 1) return SExt(l, h->w + l->w);
      if (l->op == SEXT) { Expr *i = l->k[0]; if ((i == s) || (s->k[0] == i && s->lo == i->w - 1) || (i->op==EXTRACT && i->k[0]==s->k[0] && s->lo==i->lo+i->w-1)) return SExt(i, h->w + l->w); }
    }
    return nullptr;
  }
  Expr *Concat(Expr *a, Expr *b) {
    if (a->op == CONST && b->op == CONST) return Concat_(a, b);
    return memoized(4, pairKey(a, b), [&] { return Concat_(a, b); });
  }
  Expr *Concat_(Expr *h, Expr *l) {
    unsigned w = h->w + l->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (Expr *j = tryJoin(h, l)) return j;
    if (h->isConst() && h->v == 0) return ZExt(l, w);
    if (h->op == CONCAT) return Concat(h->k[0], Concat(h->k[1], l));
    if (h->op == ZEXT) return ZExt(Concat(h->k[0], l), w);
    if (l->op == CONCAT) {
      if (Expr *j = tryJoin(h, l->k[0])) return Concat(j, l->k[1]);
    }
    if (h->isConst() && l->op == ITE && l->k[1]->isConst() && l->k[2]->isConst())
      return Ite(l->k[0], Concat(h, l->k[1]), Concat(h, l->k[2]));
    if (l->isConst() && h->op == ITE && h->k[1]->isConst() && h->k[2]->isConst())
      return Ite(h->k[0], Concat(h->k[1], l), Concat(h->k[2], l));
    return intern(CONCAT, w, 0, h, l, 0, 0);
  }
  Expr *ZExt(Expr *a, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return C(a->v, w);
    if (a->op == ZEXT) return ZExt(a->k[0], w);
    if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return Ite(a->k[0], C(a->k[1]->v, w), C(a->k[2]->v, w));
    // drop known-zero high bits so that equal values get equal forms
    unsigned hb = a->umax ? 64 - __builtin_clzll(a->umax) : 1;
    if (hb < a->w) { Expr *x = Extract(a, 0, hb); if (x->op != EXTRACT || a->op == EXTRACT) return ZExt(x, w); }
    return intern(ZEXT, w, 0, a, 0, 0, 0);
  }
  Expr *SExt(Expr *a, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return C((u64)sx(a->v, a->w), w);
    if (nonneg(a)) return ZExt(a, w);
    if (a->op == SEXT) return SExt(a->k[0], w);
    if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return Ite(a->k[0], SExt(a->k[1], w), SExt(a->k[2], w));
    return intern(SEXT, w, 0, a, 0, 0, 0);
  }
  Expr *Agg(const std::vector<Expr *> &v) {
    Expr *e = new Expr();
    e->op = AGG; e->w = 0; e->lo = 0; e->k[0] = e->k[1] = e->k[2] = 0; e->v = 0; e->id = nextId++;
    e->kz = e->ko = 0; e->umin = 0; e->umax = 1; e->vars = nullptr;
    e->agg = new std::vector<Expr *>(v);
    return e;
  }

  // ---- variable sets --------------------------------------------------------
  std::unordered_map<u64, const VarSet *> unionMemo;
  std::unordered_map<std::string, const VarSet *> setIntern;
  VarSet emptySet;
  std::unordered_map<const VarSet *, u32> setIds;
  const VarSet *internSet(const VarSet &s) {
    if (s.empty()) return &emptySet;
    std::string key((const char *)s.data(), s.size() * 4);
    auto it = setIntern.find(key);
    if (it != setIntern.end()) return it->second;
    const VarSet *p = new VarSet(s);
    setIntern[key] = p; u32 n = setIds.size() + 1; setIds[p] = n;
    return p;
  }
  const VarSet *uni(const VarSet *a, const VarSet *b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    u32 ia = setIds[a], ib = setIds[b]; if (ia > ib) std::swap(ia, ib);
    u64 key = ((u64)ia << 32) | ib;
    auto it = unionMemo.find(key);
    if (it != unionMemo.end()) return it->second;
    VarSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    const VarSet *p = internSet(r);
    unionMemo[key] = p;
    return p;
  }
  const VarSet *varsOf(Expr *e) {
    if (e->vars) return e->vars;
    const VarSet *r = &emptySet;
    if (e->op == VAR) r = internSet(VarSet{(u32)e->v});
    else if (e->op == AGG) { for (auto *x : *e->agg) r = uni(r, varsOf(x)); }
    else for (int i = 0; i < 3; i++) if (e->k[i]) r = uni(r, varsOf(e->k[i]));
    e->vars = r;
    return r;
  }
};

static ExprCtx *X;

// Evaluation under an assignment of the variables.
struct Model { std::vector<u64> v; u64 get(u32 i) const { return i < v.size() ? v[i] : 0; } void set(u32 i, u64 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };

struct Evaluator {
  std::vector<u64> val; std::vector<u32> stamp; u32 cur = 0;
  void begin() { cur++; if (cur == 0) { std::fill(stamp.begin(), stamp.end(), 0); cur = 1; } if (stamp.size() < X->nextId) { stamp.resize(X->nextId + 4096, 0); val.resize(X->nextId + 4096, 0); } }
  u64 ev(Expr *e, const Model &m) {
    if (e->op == CONST) return e->v;
    if (e->op == VAR) return m.get(e->v) & maskw(e->w);
    if (stamp[e->id] == cur) return val[e->id];
    u64 M = maskw(e->w), r = 0;
    if (e->op == ITE) {
      r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m);
    } else {
      u64 a = e->k[0] ? ev(e->k[0], m) : 0, b = e->k[1] ? ev(e->k[1], m) : 0;
      unsigned w = e->k[0]->w;
      switch (e->op) {
      case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
      case UDIV: r = b ? a / b : M; break; case UREM: r = b ? a % b : a; break;
      case SDIV: { i64 x = sx(a, w), y = sx(b, w); r = y == 0 ? (x >= 0 ? M : 1) : y == -1 ? -(u64)x : (u64)(x / y); break; }
      case SREM: { i64 x = sx(a, w), y = sx(b, w); r = y == 0 ? a : y == -1 ? 0 : (u64)(x % y); break; }
      case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
      case SHL: r = b >= w ? 0 : a << b; break; case LSHR: r = b >= w ? 0 : a >> b; break;
      case ASHR: r = (u64)(sx(a, w) >> (b >= w ? w - 1 : b)); break;
      case EQ: r = a == b; break; case ULT: r = a < b; break; case SLT: r = sx(a, w) < sx(b, w); break;
      case CONCAT: r = (a << e->k[1]->w) | b; break;
      case EXTRACT: r = a >> e->lo; break; case ZEXT: r = a; break; case SEXT: r = (u64)sx(a, w); break;
      default: fprintf(stderr, "eval op %d\n", e->op); abort();
      }
    }
    r &= M; stamp[e->id] = cur; val[e->id] = r;
    return r;
  }
};
