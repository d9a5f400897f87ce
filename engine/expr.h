// Hash-consed bit-vector expressions with simplification, and the z3 back end.
#pragma once
#include <map>
#include <z3++.h>
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <cassert>
#include <chrono>

using u128 = unsigned __int128;
using u64 = uint64_t;
using u32 = uint32_t;
using i64 = int64_t;

enum class Op : uint8_t { CONST, VAR, UNDEF, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                          EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct E {
  Op op; uint16_t w; bool cl;   // cl: ite-DAG with constant leaves
  bool hasUndef;
  uint32_t id; uint32_t sz;     // sz: saturating DAG size estimate (tree size)
  const E *a, *b, *c;
  u128 val;                     // CONST value / VAR index / EXTRACT low bit
  u128 umin, umax;              // unsigned range (sound)
};
using Ex = const E*;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline __int128 sx(u128 v, unsigned w) {
  v &= maskw(w);
  if (w < 128 && (v >> (w - 1)) & 1) v |= ~maskw(w);
  return (__int128)v;
}

struct VarInfo { std::string name; unsigned w; };

struct ExprMgr {
  std::vector<E*> nodes;
  std::vector<VarInfo> vars;
  std::vector<Ex> varEx;
  struct Key { Op op; uint16_t w; Ex a, b, c; u128 v;
    bool operator==(const Key& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && v == o.v; } };
  struct KH { size_t operator()(const Key& k) const {
    u64 h = (u64)k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((u64)k.a >> 4); mix((u64)k.b >> 4); mix((u64)k.c >> 4); mix((u64)k.v); mix((u64)(k.v >> 64)); return h; } };
  std::unordered_map<Key, Ex, KH> tab;
  Ex T, F;
  char* chunk = nullptr; size_t left = 0;
  ExprMgr() { tab.reserve(1 << 16); F = mkc(1, 0); T = mkc(1, 1); }
  E* alloc() {
    if (left < sizeof(E)) { chunk = (char*)aligned_alloc(64, 1 << 20); left = 1 << 20; }
    E* e = (E*)chunk; chunk += (sizeof(E) + 15) & ~15; left -= (sizeof(E) + 15) & ~15; return e;
  }
  Ex raw(Op op, unsigned w, Ex a = nullptr, Ex b = nullptr, Ex c = nullptr, u128 v = 0) {
    Key k{op, (uint16_t)w, a, b, c, v};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    E* e = alloc();
    e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = v; e->id = nodes.size();
    u64 s = 1; for (Ex x : {a, b, c}) if (x) s += x->sz; e->sz = std::min<u64>(s, 1u << 30);
    e->cl = op == Op::CONST || (op == Op::ITE && b->cl && c->cl);
    e->hasUndef = op == Op::UNDEF || (a && a->hasUndef) || (b && b->hasUndef) || (c && c->hasUndef);
    u128 m = maskw(w); e->umin = 0; e->umax = m;
    switch (op) {
      case Op::CONST: e->umin = e->umax = v; break;
      case Op::ITE: e->umin = std::min(b->umin, c->umin); e->umax = std::max(b->umax, c->umax); break;
      case Op::ZEXT: e->umin = a->umin; e->umax = a->umax; break;
      case Op::AND: e->umax = std::min(a->umax, b->umax); break;
      case Op::ADD: if (w < 128 && a->umax + b->umax <= m) { e->umin = a->umin + b->umin; e->umax = a->umax + b->umax; } break;
      case Op::LSHR: if (b->op == Op::CONST && b->val < w) { e->umin = a->umin >> (unsigned)b->val; e->umax = a->umax >> (unsigned)b->val; } break;
      case Op::UDIV: if (b->op == Op::CONST && b->val) { e->umin = a->umin / b->val; e->umax = a->umax / b->val; } break;
      case Op::UREM: if (b->op == Op::CONST && b->val) { e->umax = b->val - 1; } break;
      case Op::MUL: if (w <= 64 && (a->umax == 0 || b->umax <= m / a->umax)) { e->umin = a->umin * b->umin; e->umax = a->umax * b->umax; } break;
      default: break;
    }
    nodes.push_back(e);
    tab.emplace(k, e);
    return e;
  }
  Ex mkc(unsigned w, u128 v) { return raw(Op::CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
  Ex undef(unsigned w) { return raw(Op::UNDEF, w); }
  Ex var(const std::string& name, unsigned w) {
    unsigned i = vars.size(); vars.push_back({name, w});
    Ex e = raw(Op::VAR, w, nullptr, nullptr, nullptr, i); varEx.push_back(e); return e;
  }
  static bool isc(Ex e) { return e->op == Op::CONST; }
  bool isT(Ex e) { return e == T; }
  bool isF(Ex e) { return e == F; }

  Ex notb(Ex a) { // boolean not
    if (a == T) return F; if (a == F) return T;
    if (a->op == Op::XOR && a->b == T) return a->a;
    if (a->op == Op::ITE && a->w == 1 && a->sz < 200 && a->b->cl && a->c->cl) return ite(a->a, notb(a->b), notb(a->c));
    return raw(Op::XOR, 1, a, T);
  }
  bool isNotOf(Ex a, Ex b) { return (a->op == Op::XOR && a->b == T && a->a == b) || (b->op == Op::XOR && b->b == T && b->a == a); }
  Ex andb(Ex a, Ex b) {
    if (a == F || b == F) return F; if (a == T) return b; if (b == T) return a; if (a == b) return a;
    if (isNotOf(a, b)) return F;
    // absorption
    if (a->op == Op::AND && (a->a == b || a->b == b)) return a;
    if (b->op == Op::AND && (b->a == a || b->b == a)) return b;
    if (a->op == Op::AND && (isNotOf(a->a, b) || isNotOf(a->b, b))) return F;
    if (b->op == Op::AND && (isNotOf(b->a, a) || isNotOf(b->b, a))) return F;
    if (a->op == Op::OR && (a->a == b || a->b == b)) return b;
    if (b->op == Op::OR && (b->a == a || b->b == a)) return a;
    if (a->op == Op::OR) { if (isNotOf(a->a, b)) return andb(a->b, b); if (isNotOf(a->b, b)) return andb(a->a, b); }
    if (b->op == Op::OR) { if (isNotOf(b->a, a)) return andb(a, b->b); if (isNotOf(b->b, a)) return andb(a, b->a); }
    // EQ(x,k1) & EQ(x,k2)
    if (a->op == Op::EQ && b->op == Op::EQ && a->a == b->a && isc(a->b) && isc(b->b)) return F;
    if (a->id > b->id) std::swap(a, b);
    return raw(Op::AND, 1, a, b);
  }
  Ex orb(Ex a, Ex b) {
    if (a == T || b == T) return T; if (a == F) return b; if (b == F) return a; if (a == b) return a;
    if (isNotOf(a, b)) return T;
    if (a->op == Op::OR && (a->a == b || a->b == b)) return a;
    if (b->op == Op::OR && (b->a == a || b->b == a)) return b;
    if (a->op == Op::AND && (a->a == b || a->b == b)) return b;
    if (b->op == Op::AND && (b->a == a || b->b == a)) return a;
    if (a->op == Op::AND && b->op == Op::AND) { // (x&y)|(x&!y) = x ; factor common
      Ex x = nullptr, p = nullptr, q = nullptr;
      if (a->a == b->a) { x = a->a; p = a->b; q = b->b; } else if (a->a == b->b) { x = a->a; p = a->b; q = b->a; }
      else if (a->b == b->a) { x = a->b; p = a->a; q = b->b; } else if (a->b == b->b) { x = a->b; p = a->a; q = b->a; }
      if (x) return andb(x, orb(p, q));
    }
    if (a->op == Op::AND) { if (isNotOf(a->a, b)) return orb(a->b, b); if (isNotOf(a->b, b)) return orb(a->a, b); }
    if (b->op == Op::AND) { if (isNotOf(b->a, a)) return orb(a, b->b); if (isNotOf(b->b, a)) return orb(a, b->a); }
    if (a->id > b->id) std::swap(a, b);
    return raw(Op::OR, 1, a, b);
  }
  Ex ite(Ex c, Ex a, Ex b) {
    if (c == T) return a; if (c == F) return b; if (a == b) return a;
    if (c->op == Op::XOR && c->b == T) return ite(c->a, b, a);
    if (a->w == 1) {
      if (a == T && b == F) return c; if (a == F && b == T) return notb(c);
      if (a == T) return orb(c, b); if (a == F) return andb(notb(c), b);
      if (b == T) return orb(notb(c), a); if (b == F) return andb(c, a);
    }
    if (a->op == Op::ITE) {
      if (a->a == c) return ite(c, a->b, b);
      if (a->c == b) return ite(andb(c, a->a), a->b, b);
      if (a->b == b) return ite(andb(c, notb(a->a)), a->c, b);
    }
    if (b->op == Op::ITE) {
      if (b->a == c) return ite(c, a, b->c);
      if (b->b == a) return ite(orb(c, b->a), a, b->c);
      if (b->c == a) return ite(orb(c, notb(b->a)), a, b->b);
    }
    return raw(Op::ITE, a->w, c, a, b);
  }
  struct PK { Op op; Ex a, b; unsigned w; u128 v; bool operator==(const PK& o) const { return op == o.op && a == o.a && b == o.b && w == o.w && v == o.v; } };
  struct PH { size_t operator()(const PK& k) const { u64 h = (u64)k.op; h = h * 1000003 ^ ((u64)k.a >> 4); h = h * 0x9E3779B97F4A7C15ull ^ ((u64)k.b >> 4); h ^= k.w * 7919; h = h * 31 + (u64)k.v; return h ^ (h >> 29); } };
  std::unordered_map<PK, Ex, PH> pushc;
  static constexpr unsigned PUSH_LIM = 4000;
  bool pushable(Ex e) { return e->op == Op::ITE && e->cl && e->sz < PUSH_LIM; }
  template <class Fn> Ex push1(Op op, Ex a, unsigned w, u128 v, Fn f) {
    PK k{op, a, nullptr, w, v}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
    Ex r = ite(a->a, f(a->b), f(a->c)); pushc[k] = r; return r;
  }
  Ex bin(Op op, Ex a, Ex b) {
    unsigned w = a->w;
    if (w == 1) {
      switch (op) { case Op::AND: case Op::MUL: return andb(a, b); case Op::OR: return orb(a, b);
        case Op::XOR: case Op::ADD: case Op::SUB: if (b == T) return notb(a); if (a == T) return notb(b); if (a == F) return b; if (b == F) return a; if (a == b) return F;
          if (isNotOf(a, b)) return T;
          if (a->id > b->id) std::swap(a, b); return raw(Op::XOR, 1, a, b);
        default: break; }
    }
    if (isc(a) && isc(b)) {
      u128 x = a->val, y = b->val, r = 0; bool ok = true;
      switch (op) {
        case Op::ADD: r = x + y; break; case Op::SUB: r = x - y; break; case Op::MUL: r = x * y; break;
        case Op::UDIV: if (!y) ok = false; else r = x / y; break; case Op::UREM: if (!y) ok = false; else r = x % y; break;
        case Op::SDIV: if (!y) ok = false; else r = (u128)(sx(x, w) / sx(y, w)); break;
        case Op::SREM: if (!y) ok = false; else r = (u128)(sx(x, w) % sx(y, w)); break;
        case Op::AND: r = x & y; break; case Op::OR: r = x | y; break; case Op::XOR: r = x ^ y; break;
        case Op::SHL: r = y >= w ? 0 : x << (unsigned)y; break; case Op::LSHR: r = y >= w ? 0 : x >> (unsigned)y; break;
        case Op::ASHR: r = (u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)); break;
        default: ok = false; }
      if (ok) return mkc(w, r);
    }
    bool comm = op == Op::ADD || op == Op::MUL || op == Op::AND || op == Op::OR || op == Op::XOR;
    if (comm && isc(a)) std::swap(a, b);
    if (isc(b)) {
      u128 y = b->val;
      if (y == 0) { if (op == Op::ADD || op == Op::SUB || op == Op::OR || op == Op::XOR || op == Op::SHL || op == Op::LSHR || op == Op::ASHR) return a;
        if (op == Op::AND || op == Op::MUL) return b; }
      if (y == 1 && (op == Op::MUL || op == Op::UDIV || op == Op::SDIV)) return a;
      if (op == Op::AND && y == maskw(w)) return a;
      if (op == Op::OR && y == maskw(w)) return b;
      if (op == Op::SUB) return bin(Op::ADD, a, mkc(w, (u128)0 - y));
      if (op == Op::ADD && a->op == Op::ADD && isc(a->b)) return bin(Op::ADD, a->a, mkc(w, a->b->val + y));
      if (op == Op::XOR && a->op == Op::XOR && isc(a->b)) return bin(Op::XOR, a->a, mkc(w, a->b->val ^ y));
      if (op == Op::AND && a->op == Op::AND && isc(a->b)) return bin(Op::AND, a->a, mkc(w, a->b->val & y));
      if (op == Op::MUL && (y & (y - 1)) == 0) { unsigned k = 0; while (((u128)1 << k) != y) k++; return bin(Op::SHL, a, mkc(w, k)); }
      if (op == Op::UDIV && (y & (y - 1)) == 0 && y) { unsigned k = 0; while (((u128)1 << k) != y) k++; return bin(Op::LSHR, a, mkc(w, k)); }
      if (op == Op::UREM && (y & (y - 1)) == 0 && y) return bin(Op::AND, a, mkc(w, y - 1));
      if (op == Op::AND && y && (y & (y + 1)) == 0 && a->umax <= y) return a;
      if ((op == Op::SHL || op == Op::LSHR) && y >= w) return mkc(w, 0);
      if (op == Op::AND && y && (y & (y + 1)) == 0) { // low mask: as zext(extract)
        unsigned k = 0; while (((u128)1 << k) <= y) k++; 
        if (a->op == Op::CONCAT || a->op == Op::ZEXT) return zext(extract(a, 0, k), w); }
      if (op == Op::LSHR && (a->op == Op::CONCAT || a->op == Op::ZEXT)) return zext(extract(a, (unsigned)y, w - (unsigned)y), w);
      if (op == Op::SHL && w <= 128) { // keep as is
      }
      if (op == Op::AND && a->op == Op::CONCAT && w <= 128) { // distribute masks over concat parts
        unsigned lw = a->b->w; return concat(bin(Op::AND, a->a, mkc(a->a->w, y >> lw)), bin(Op::AND, a->b, mkc(lw, y)));
      }
      if (op == Op::OR && a->op == Op::CONCAT && w <= 128) {
        unsigned lw = a->b->w; return concat(bin(Op::OR, a->a, mkc(a->a->w, y >> lw)), bin(Op::OR, a->b, mkc(lw, y)));
      }
    }
    if (op == Op::OR && w <= 128) { // or of disjoint zext/shl => concat
      auto shl = [&](Ex x) { return x->op == Op::SHL && isc(x->b); };
      if (shl(b)) std::swap(a, b);
      if (shl(a) && !isc(b)) {
        unsigned k = (unsigned)a->b->val;
        if (k < w && b->umax <= maskw(k)) return concat(extract(a->a, 0, w - k), extract(b, 0, k));
      }
    }
    if (a == b) { if (op == Op::SUB || op == Op::XOR) return mkc(w, 0); if (op == Op::AND || op == Op::OR) return a; }
    if (pushable(a) && isc(b)) {
      PK k{op, a, b, w, 0}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(a->a, bin(op, a->b, b), bin(op, a->c, b)); pushc[k] = r; return r;
    }
    if (pushable(b) && isc(a)) {
      PK k{op, a, b, w, 1}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(b->a, bin(op, a, b->b), bin(op, a, b->c)); pushc[k] = r; return r;
    }
    if (pushable(a) && pushable(b) && a->sz * b->sz < 400) {
      PK k{op, a, b, w, 2}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(a->a, bin(op, a->b, b), bin(op, a->c, b)); pushc[k] = r; return r;
    }
    if (comm && !isc(b) && a->id > b->id) std::swap(a, b);
    return raw(op, w, a, b);
  }
  Ex eq(Ex a, Ex b) {
    if (a == b) return a->hasUndef ? raw(Op::EQ, 1, a, b) : T;
    if (isc(a) && isc(b)) return F;
    if (isc(a)) std::swap(a, b);
    if (a->w == 1) { if (b == T) return a; if (b == F) return notb(a); return notb(bin(Op::XOR, a, b)); }
    if (a->umax < b->umin || b->umax < a->umin) return F;
    if (isc(b)) {
      if (pushable(a)) {
        PK k{Op::EQ, a, b, 1, 0}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
        Ex r = ite(a->a, eq(a->b, b), eq(a->c, b)); pushc[k] = r; return r;
      }
      if (a->op == Op::ITE && a->b->cl) return ite(a->a, eq(a->b, b), eq(a->c, b));
      if (a->op == Op::ITE && a->c->cl) return ite(a->a, eq(a->b, b), eq(a->c, b));
      if (a->op == Op::ZEXT) return b->val <= maskw(a->a->w) ? eq(a->a, mkc(a->a->w, b->val)) : F;
      if (a->op == Op::SEXT) { u128 t = b->val & maskw(a->a->w); if (((u128)sx(t, a->a->w) & maskw(a->w)) == b->val) return eq(a->a, mkc(a->a->w, t)); return F; }
      if (a->op == Op::ADD && isc(a->b)) return eq(a->a, mkc(a->w, b->val - a->b->val));
      if (a->op == Op::XOR && isc(a->b)) return eq(a->a, mkc(a->w, b->val ^ a->b->val));
      if (a->op == Op::CONCAT && a->w <= 128) return andb(eq(a->a, mkc(a->a->w, b->val >> a->b->w)), eq(a->b, mkc(a->b->w, b->val)));
    } else if (pushable(a) && pushable(b) && (u64)a->sz * b->sz < 400) {
      PK k{Op::EQ, a, b, 1, 2}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(a->a, eq(a->b, b), eq(a->c, b)); pushc[k] = r; return r;
    }
    if (a->id > b->id && !isc(b)) std::swap(a, b);
    return raw(Op::EQ, 1, a, b);
  }
  Ex ult(Ex a, Ex b) {
    if (isc(a) && isc(b)) return a->val < b->val ? T : F;
    if (a->umax < b->umin) return T; if (a->umin >= b->umax) return F;
    if (a == b && !a->hasUndef) return F;
    if (a->w == 1) return andb(notb(a), b);
    if (isc(b) && b->val == 1) return eq(a, mkc(a->w, 0));
    if (isc(a) && a->val == 0) return notb(eq(b, mkc(a->w, 0)));
    if (pushable(a) && isc(b)) {
      PK k{Op::ULT, a, b, 1, 0}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(a->a, ult(a->b, b), ult(a->c, b)); pushc[k] = r; return r; }
    if (pushable(b) && isc(a)) {
      PK k{Op::ULT, a, b, 1, 1}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(b->a, ult(a, b->b), ult(a, b->c)); pushc[k] = r; return r; }
    if (pushable(a) && pushable(b) && (u64)a->sz * b->sz < 400) {
      PK k{Op::ULT, a, b, 1, 2}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(a->a, ult(a->b, b), ult(a->c, b)); pushc[k] = r; return r; }
    return raw(Op::ULT, 1, a, b);
  }
  Ex ule(Ex a, Ex b) { return notb(ult(b, a)); }
  Ex slt(Ex a, Ex b) {
    unsigned w = a->w;
    if (isc(a) && isc(b)) return sx(a->val, w) < sx(b->val, w) ? T : F;
    if (a == b && !a->hasUndef) return F;
    u128 half = (u128)1 << (w - 1);
    if (a->umax < half && b->umax < half) return ult(a, b);
    if (pushable(a) && isc(b)) {
      PK k{Op::SLT, a, b, 1, 0}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(a->a, slt(a->b, b), slt(a->c, b)); pushc[k] = r; return r; }
    if (pushable(b) && isc(a)) {
      PK k{Op::SLT, a, b, 1, 1}; auto it = pushc.find(k); if (it != pushc.end()) return it->second;
      Ex r = ite(b->a, slt(a, b->b), slt(a, b->c)); pushc[k] = r; return r; }
    return raw(Op::SLT, 1, a, b);
  }
  Ex sle(Ex a, Ex b) { return notb(slt(b, a)); }
  Ex extract(Ex a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isc(a)) return mkc(w, a->val >> lo);
    if (a->op == Op::UNDEF) return undef(w);
    if (a->op == Op::EXTRACT) return extract(a->a, (unsigned)a->val + lo, w);
    if (a->op == Op::CONCAT) {
      unsigned lw = a->b->w;
      if (lo >= lw) return extract(a->a, lo - lw, w);
      if (lo + w <= lw) return extract(a->b, lo, w);
      return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo));
    }
    if (a->op == Op::ZEXT) {
      unsigned aw = a->a->w;
      if (lo >= aw) return mkc(w, 0);
      if (lo + w <= aw) return extract(a->a, lo, w);
      return zext(extract(a->a, lo, aw - lo), w);
    }
    if (a->op == Op::SEXT && lo + w <= a->a->w) return extract(a->a, lo, w);
    if (a->op == Op::ITE) {
      if (a->cl && a->sz < PUSH_LIM) return push1(Op::EXTRACT, a, w, lo, [&](Ex x) { return extract(x, lo, w); });
      if (a->sz < 64) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
    }
    if (lo == 0 && w < a->w) {
      if (a->op == Op::ADD || a->op == Op::SUB || a->op == Op::MUL || a->op == Op::AND || a->op == Op::OR || a->op == Op::XOR)
        if (isc(a->b) || a->a->op == Op::ZEXT || a->b->op == Op::ZEXT) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
    }
    if ((a->op == Op::AND || a->op == Op::OR || a->op == Op::XOR) && isc(a->b)) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
    if (a->op == Op::SHL && isc(a->b)) {
      unsigned k = (unsigned)a->b->val;
      if (lo >= k) return extract(a->a, lo - k, w);
      if (lo + w <= k) return mkc(w, 0);
      return concat(extract(a->a, 0, lo + w - k), mkc(k - lo, 0));
    }
    if (a->op == Op::LSHR && isc(a->b)) {
      unsigned k = (unsigned)a->b->val;
      if (lo + k + w <= a->w) return extract(a->a, lo + k, w);
    }
    return raw(Op::EXTRACT, w, a, nullptr, nullptr, lo);
  }
  Ex concat(Ex hi, Ex lo) {
    unsigned w = hi->w + lo->w;
    if (isc(hi) && isc(lo) && w <= 128) return mkc(w, hi->val << lo->w | lo->val);
    if (hi->op == Op::UNDEF && lo->op == Op::UNDEF) return undef(w);
    if (isc(hi) && hi->val == 0 && w <= 128) return zext(lo, w);
    if (hi->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->a == lo->a && (unsigned)hi->val == (unsigned)lo->val + lo->w)
      return extract(hi->a, (unsigned)lo->val, w);
    if (hi->op == Op::EXTRACT && lo->op == Op::CONCAT && lo->a->op == Op::EXTRACT && hi->a == lo->a->a && (unsigned)hi->val == (unsigned)lo->a->val + lo->a->w)
      return concat(extract(hi->a, (unsigned)lo->a->val, hi->w + lo->a->w), lo->b);
    if (hi->op == Op::ITE && lo->op == Op::ITE && hi->a == lo->a && w <= 128) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    if (isc(hi) && lo->op == Op::ITE && lo->cl && lo->sz < 64 && w <= 128) return ite(lo->a, concat(hi, lo->b), concat(hi, lo->c));
    if (isc(lo) && hi->op == Op::ITE && hi->cl && hi->sz < 64 && w <= 128) return ite(hi->a, concat(hi->b, lo), concat(hi->c, lo));
    if (hi->op == Op::CONCAT) return concat(hi->a, concat(hi->b, lo)); // right-assoc
    return raw(Op::CONCAT, w, hi, lo);
  }
  Ex zext(Ex a, unsigned w) {
    if (w == a->w) return a;
    if (isc(a)) return mkc(w, a->val);
    if (a->op == Op::ZEXT) return zext(a->a, w);
    if (a->op == Op::ITE && a->cl && a->sz < PUSH_LIM) return push1(Op::ZEXT, a, w, 0, [&](Ex x) { return zext(x, w); });
    return raw(Op::ZEXT, w, a);
  }
  Ex sext(Ex a, unsigned w) {
    if (w == a->w) return a;
    if (isc(a)) return mkc(w, (u128)sx(a->val, a->w));
    if (a->op == Op::UNDEF) return undef(w);
    if (a->umax < ((u128)1 << (a->w - 1))) return zext(a, w);
    if (a->w == 1) return ite(a, mkc(w, maskw(w)), mkc(w, 0));
    if (a->op == Op::ITE && a->cl && a->sz < PUSH_LIM) return push1(Op::SEXT, a, w, 0, [&](Ex x) { return sext(x, w); });
    return raw(Op::SEXT, w, a);
  }
  // definedness condition of an expression
  std::unordered_map<Ex, Ex> defc;
  Ex defined(Ex e) {
    if (!e->hasUndef) return T;
    if (e->op == Op::UNDEF) return F;
    auto it = defc.find(e); if (it != defc.end()) return it->second;
    Ex r;
    if (e->op == Op::ITE) r = andb(defined(e->a), ite(e->a, defined(e->b), defined(e->c)));
    else if (e->op == Op::AND || e->op == Op::OR) {
      // a defined dominating operand hides the other one
      Ex da = defined(e->a), db = defined(e->b);
      u128 dom = e->op == Op::AND ? 0 : maskw(e->w);
      Ex ha = andb(da, eqs(e->a, dom)), hb = andb(db, eqs(e->b, dom));
      r = orb(andb(da, db), orb(ha, hb));
    } else { r = T; for (Ex x : {e->a, e->b, e->c}) if (x) r = andb(r, defined(x)); }
    defc[e] = r; return r;
  }
  Ex eqs(Ex a, u128 v) { return eq(a, mkc(a->w, v)); }
};

extern ExprMgr M;

using Model = std::unordered_map<unsigned, u128>; // var -> value (absent = 0)
using ModelP = std::shared_ptr<const Model>;

// concrete evaluation of an expression under a model
struct Evaluator {
  const Model& m; std::unordered_map<Ex, u128> memo;
  explicit Evaluator(const Model& mm) : m(mm) {}
  u128 ev(Ex e) {
    if (e->op == Op::CONST) return e->val;
    if (e->op == Op::VAR) { auto it = m.find((unsigned)e->val); return it == m.end() ? 0 : it->second; }
    if (e->op == Op::UNDEF) return 0;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    u128 r = 0; unsigned w = e->w; u128 mk = maskw(w);
    switch (e->op) {
      case Op::ITE: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
      case Op::EXTRACT: r = e->a->w > 128 ? 0 : ev(e->a) >> (unsigned)e->val; break;
      case Op::CONCAT: r = (e->b->w >= 128 ? 0 : ev(e->a) << e->b->w) | ev(e->b); break;
      case Op::ZEXT: r = ev(e->a); break;
      case Op::SEXT: r = (u128)sx(ev(e->a), e->a->w); break;
      case Op::EQ: r = ev(e->a) == ev(e->b); break;
      case Op::ULT: r = ev(e->a) < ev(e->b); break;
      case Op::SLT: r = sx(ev(e->a), e->a->w) < sx(ev(e->b), e->b->w); break;
      case Op::AND: { u128 x = ev(e->a); r = x ? x & ev(e->b) : 0; } break;
      default: {
        u128 x = ev(e->a), y = ev(e->b);
        switch (e->op) {
          case Op::ADD: r = x + y; break; case Op::SUB: r = x - y; break; case Op::MUL: r = x * y; break;
          case Op::UDIV: r = y ? x / y : mk; break; case Op::UREM: r = y ? x % y : x; break;
          case Op::SDIV: r = y ? (u128)(sx(x, w) / sx(y, w)) : (sx(x, w) < 0 ? 1 : mk); break;
          case Op::SREM: r = y ? (u128)(sx(x, w) % sx(y, w)) : x; break;
          case Op::OR: r = x | y; break; case Op::XOR: r = x ^ y; break;
          case Op::SHL: r = y >= w ? 0 : x << (unsigned)y; break; case Op::LSHR: r = y >= w ? 0 : x >> (unsigned)y; break;
          case Op::ASHR: r = (u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)); break;
          default: break; } } }
    r &= mk; memo[e] = r; return r;
  }
};

struct Solver {
  z3::context ctx; std::unique_ptr<z3::solver> s;
  std::vector<Z3_ast> tr; // by node id (ref-counted)
  std::unordered_map<Ex, z3::expr> lits;
  u64 queries = 0, satq = 0, unsatq = 0, cached = 0, unknown = 0; double time = 0; u64 sinceReset = 0;
  std::unordered_map<u64, ModelP> mcache; std::unordered_map<u64, int> cache; // (pc,cond) -> result
  unsigned timeout_ms = 120000;
  std::string logic = "QF_FD";
  Solver() { reset(); }
  void reset() {
    s = std::make_unique<z3::solver>(logic == "" ? z3::solver(ctx) : z3::solver(ctx, logic.c_str()));
    z3::params p(ctx); p.set("timeout", timeout_ms); s->set(p); lits.clear(); sinceReset = 0;
    for (auto& d : divDefs) s->add(d);
  }
  // unsigned division by a constant k: quotient and remainder are the unique q, r with x = q*k + r without overflow, r < k (much cheaper than a bit-blasted divider)
  std::map<std::pair<unsigned, unsigned>, std::pair<z3::expr, z3::expr>> divs; std::vector<z3::expr> divDefs;
  std::pair<z3::expr, z3::expr> divConst(Ex a, Ex k) {
    auto key = std::make_pair((unsigned)a->id, (unsigned)k->id); auto it = divs.find(key); if (it != divs.end()) return it->second;
    unsigned w = a->w, n = w; u128 kv = k->val; Ex x = a; if (a->op == Op::ZEXT && (kv >> a->a->w) == 0 && a->a->w > 1) { x = a->a; n = x->w; }
    std::string nm = std::to_string(a->id) + "_" + std::to_string(k->id); z3::expr q = ctx.bv_const(("dq" + nm).c_str(), n), r = ctx.bv_const(("dr" + nm).c_str(), n), kk = ctx.bv_val((uint64_t)kv, n), X = bv(x);
    uint64_t mx = n == 64 ? ~0ull : ((1ull << n) - 1); z3::expr d = X == q * kk + r && z3::ule(q * kk, X) && z3::ult(r, kk) && z3::ule(q, ctx.bv_val((uint64_t)(mx / (uint64_t)kv), n));
    divDefs.push_back(d); s->add(d); auto res = n == w ? std::make_pair(q, r) : std::make_pair(z3::zext(q, w - n), z3::zext(r, w - n)); divs.emplace(key, res); return res;
  }
  z3::expr get(Ex e) { return z3::expr(ctx, tr[e->id]); }
  z3::expr B(Ex e) { z3::expr r = get(e); return r; }
  z3::expr bv(Ex e) { z3::expr r = get(e); if (e->w == 1) return z3::ite(r, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); return r; }
  void translate(Ex root) {
    if (root->id < tr.size() && tr[root->id]) return;
    std::vector<Ex> st{root};
    while (!st.empty()) {
      Ex e = st.back();
      if (tr.size() < M.nodes.size()) tr.resize(M.nodes.size() + 1024, nullptr);
      if (tr[e->id]) { st.pop_back(); continue; }
      bool ready = true;
      for (Ex x : {e->a, e->b, e->c}) if (x && !tr[x->id]) { st.push_back(x); ready = false; }
      if (!ready) continue;
      z3::expr r = mk(e);
      Z3_inc_ref(ctx, r); tr[e->id] = r; st.pop_back();
    }
  }
  z3::expr mk(Ex e) {
    unsigned w = e->w;
    switch (e->op) {
      case Op::CONST: if (w == 1) return ctx.bool_val(e->val != 0);
        if (w <= 64) return ctx.bv_val((uint64_t)e->val, w);
        return z3::concat(ctx.bv_val((uint64_t)(e->val >> 64), w - 64), ctx.bv_val((uint64_t)e->val, 64));
      case Op::VAR: { std::string n = "v" + std::to_string((unsigned)e->val); return w == 1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), w); }
      case Op::UNDEF: { std::string n = "undef" + std::to_string(w); return w == 1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), w); }
      case Op::ITE: return z3::ite(B(e->a), get(e->b), get(e->c));
      case Op::EQ: return get(e->a) == get(e->b);
      case Op::ULT: return z3::ult(bv(e->a), bv(e->b));
      case Op::SLT: return z3::slt(bv(e->a), bv(e->b));
      case Op::CONCAT: return z3::concat(bv(e->a), bv(e->b));
      case Op::EXTRACT: { z3::expr r = bv(e->a).extract((unsigned)e->val + w - 1, (unsigned)e->val); return w == 1 ? (r == ctx.bv_val(1, 1)) : r; }
      case Op::ZEXT: return z3::zext(bv(e->a), w - e->a->w);
      case Op::SEXT: return z3::sext(bv(e->a), w - e->a->w);
      default: break;
    }
    if (w == 1) {
      z3::expr a = get(e->a), b = get(e->b);
      switch (e->op) { case Op::AND: return a && b; case Op::OR: return a || b; case Op::XOR: if (e->b == M.T) return !a; return a != b;
        default: { z3::expr x = bv(e->a), y = bv(e->b); z3::expr r = arith(e->op, x, y); return r == ctx.bv_val(1, 1); } }
    }
    if ((e->op == Op::UDIV || e->op == Op::UREM) && e->b->op == Op::CONST && e->b->val != 0 && w <= 64) { auto qr = divConst(e->a, e->b); return e->op == Op::UDIV ? qr.first : qr.second; }
    return arith(e->op, get(e->a), get(e->b));
  }
  z3::expr arith(Op op, z3::expr x, z3::expr y) {
    switch (op) {
      case Op::ADD: return x + y; case Op::SUB: return x - y; case Op::MUL: return x * y;
      case Op::UDIV: return z3::udiv(x, y); case Op::SDIV: return x / y; case Op::UREM: return z3::urem(x, y); case Op::SREM: return z3::srem(x, y);
      case Op::AND: return x & y; case Op::OR: return x | y; case Op::XOR: return x ^ y;
      case Op::SHL: return z3::shl(x, y); case Op::LSHR: return z3::lshr(x, y); case Op::ASHR: return z3::ashr(x, y);
      default: fprintf(stderr, "arith op?\n"); abort(); }
  }
  z3::expr lit(Ex e) {
    auto it = lits.find(e); if (it != lits.end()) return it->second;
    translate(e); z3::expr t = get(e);
    std::string n = "L" + std::to_string(e->id);
    z3::expr l = ctx.bool_const(n.c_str());
    s->add(z3::implies(l, t));
    lits.emplace(e, l); return l;
  }
  // 1 sat, 0 unsat, -1 unknown.  Model returned when sat.
  int check(Ex pc, Ex cond, ModelP* out) {
    if (pc == M.F || cond == M.F) return 0;
    u64 key = ((u64)pc->id << 32) | cond->id;
    { auto it = cache.find(key); if (it != cache.end()) { if (!out || !it->second) { cached++; return it->second; } auto im = mcache.find(key); if (im != mcache.end()) { cached++; *out = im->second; return 1; } } }
    auto t0 = std::chrono::steady_clock::now();
    if (++sinceReset > 4000) reset();
    queries++;
    z3::expr_vector as(ctx); 
    if (pc != M.T) as.push_back(lit(pc)); if (cond != M.T) as.push_back(lit(cond));
    z3::check_result r = s->check(as);
    int res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
    if (res == -1) { // retry from scratch with the default solver
      z3::solver s2(ctx); z3::params p(ctx); p.set("timeout", timeout_ms); s2.set(p);
      translate(pc); translate(cond); for (auto& d : divDefs) s2.add(d); s2.add(get(pc)); s2.add(get(cond));
      r = s2.check(); res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
      if (res == 1 && out) *out = grab(s2.get_model());
    } else if (res == 1 && out) *out = grab(s->get_model());
    if (res == 1) satq++; else if (res == 0) unsatq++; else unknown++;
    time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    cache[key] = res; if (res == 1 && out) { if (mcache.size() > 200000) mcache.clear(); mcache[key] = *out; }
    return res;
  }
  ModelP grab(z3::model m) {
    auto r = std::make_shared<Model>();
    for (unsigned i = 0; i < m.num_consts(); i++) {
      z3::func_decl d = m.get_const_decl(i); std::string n = d.name().str();
      if (n.size() < 2 || n[0] != 'v' || !isdigit(n[1])) continue;
      unsigned v = atoi(n.c_str() + 1); z3::expr val = m.get_const_interp(d);
      if (val.is_bool()) (*r)[v] = val.is_true();
      else {
        std::string str = val.get_decimal_string(0); u128 x = 0; for (char ch : str) if (isdigit(ch)) x = x * 10 + (ch - '0'); (*r)[v] = x; }
    }
    return r;
  }
};
extern Solver* SV;
