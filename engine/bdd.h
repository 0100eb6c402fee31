// Reduced ordered binary decision diagrams with complement edges.
// A guard is a Boolean function of the symbolic input bits.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <vector>
#include <cstdio>

typedef uint32_t G;            // node index << 1 | complement
static const G GT = 0, GF = 1; // true, false (node 0 is the terminal)

struct Bdd {
  struct Node { uint32_t var, hi, lo, next; };
  struct Ent { uint32_t a, b, r; };
  std::vector<Node> n;
  std::vector<uint32_t> table;
  std::vector<Ent> cache;
  uint64_t tmask, cmask;
  uint64_t ops = 0, miss = 0;
  Bdd() {
    n.reserve(1 << 20);
    n.push_back({0xffffffffu, 0, 0, 0});
    table.assign(1 << 18, 0);
    tmask = table.size() - 1;
    cache.assign(1 << 20, {0xffffffffu, 0, 0});
    cmask = cache.size() - 1;
  }
  static uint64_t h3(uint64_t a, uint64_t b, uint64_t c) {
    uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^ (c + 1) * 0x165667B19E3779F9ull;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return h;
  }
  void grow() {
    table.assign(table.size() * 2, 0);
    tmask = table.size() - 1;
    for (uint32_t i = 1; i < n.size(); i++) {
      uint64_t h = h3(n[i].var, n[i].hi, n[i].lo) & tmask;
      n[i].next = table[h]; table[h] = i;
    }
    if (cache.size() < (1u << 24)) {
      cache.assign(cache.size() * 2, {0xffffffffu, 0, 0});
      cmask = cache.size() - 1;
    }
  }
  G mk(uint32_t var, G hi, G lo) {
    if (hi == lo) return hi;
    uint32_t neg = hi & 1;
    hi ^= neg; lo ^= neg;
    uint64_t h = h3(var, hi, lo) & tmask;
    for (uint32_t i = table[h]; i; i = n[i].next)
      if (n[i].var == var && n[i].hi == hi && n[i].lo == lo) return i << 1 | neg;
    uint32_t id = n.size();
    n.push_back({var, hi, lo, table[h]});
    table[h] = id;
    if (n.size() > table.size()) grow();
    return id << 1 | neg;
  }
  G var(uint32_t v) { return mk(v, GT, GF); }
  static G Not(G a) { return a ^ 1; }
  G And(G a, G b) {
    if (a == GF || b == GF || a == (b ^ 1)) return GF;
    if (a == GT || a == b) return b;
    if (b == GT) return a;
    if (a > b) { G t = a; a = b; b = t; }
    ops++;
    uint64_t h = h3(a, b, 7) & cmask;
    if (cache[h].a == a && cache[h].b == b) return cache[h].r;
    miss++;
    const Node na = n[a >> 1], nb = n[b >> 1];
    uint32_t v = na.var < nb.var ? na.var : nb.var;
    G ah = a, al = a, bh = b, bl = b;
    if (na.var == v) { ah = na.hi ^ (a & 1); al = na.lo ^ (a & 1); }
    if (nb.var == v) { bh = nb.hi ^ (b & 1); bl = nb.lo ^ (b & 1); }
    G rh = And(ah, bh), rl = And(al, bl);
    G r = mk(v, rh, rl);
    h = h3(a, b, 7) & cmask;
    cache[h] = {a, b, r};
    return r;
  }
  G Or(G a, G b) { return And(a ^ 1, b ^ 1) ^ 1; }
  G Diff(G a, G b) { return And(a, b ^ 1); }
  bool sat(G a) const { return a != GF; }
  bool disj(G a, G b) { return And(a, b) == GF; }
  bool implies(G a, G b) { return And(a, b ^ 1) == GF; }
};
