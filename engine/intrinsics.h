// Environment of the program under test: memory allocation, C library,
// streams, clock, randomness, and the driver that turns a specification of
// symbolic inputs into guarded buffers and exports the result.
#pragma once

//===------------------------------------------------------------------===//
// helpers
//===------------------------------------------------------------------===//
typedef std::vector<std::pair<std::string, G>> Texts;
static void addText(Texts &t, std::string s, G g) {
  if (g == GF) return;
  for (auto &x : t) if (x.first == s) { x.second = B.Or(x.second, g); return; }
  t.push_back({std::move(s), g});
}
static const VS &arg(Frame *f, PInst &I, unsigned i) { return opv(f, I.a[(I.x ? 0 : 0) + I.k[i]]); }
static unsigned nargs(PInst &I) { return I.k.size(); }
static void ret(Frame *f, PInst &I, const VS &v, G g) { if (I.dst >= 0 && g != GF) setReg(f, I.dst, v, g); }
static VS offs(const VS &p, uint64_t d, G g) { return map1(p, g, [d](Val x) { return Val{x.b + d, x.o}; }); }

// C string(s) at p; may remove states from g
static Texts cstrs(VS p, G &g, uint64_t limit = ~0ull) {
  Texts out;
  struct W { std::string s; Val p; G g; };
  std::vector<W> st;
  p = needDef(p, g, "uninit-pointer");
  each(p, g, [&](Val v, G h) { st.push_back({"", v, h}); });
  while (!st.empty()) {
    W w = std::move(st.back()); st.pop_back();
    w.g = B.And(w.g, g);
    for (;;) {
      if (w.g == GF) break;
      if (w.s.size() >= limit) { addText(out, w.s, w.g); break; }
      G k = w.g;
      VS b = loadMem(VS(w.p), 1, k);
      if (k == GF) { g = B.Diff(g, w.g); break; }
      if (k != w.g) { g = B.Diff(g, B.Diff(w.g, k)); w.g = k; }
      b = needDef(b, k, "uninit-string");
      if (k != w.g) { g = B.Diff(g, B.Diff(w.g, k)); w.g = k; if (k == GF) break; }
      w.p.b++;
      if (b.single()) {
        char c = (char)b.v.b;
        if (!c) { addText(out, w.s, w.g); break; }
        w.s += c;
        continue;
      }
      each(b, w.g, [&](Val v, G h) {
        char c = (char)v.b;
        if (!c) addText(out, w.s, h);
        else st.push_back({w.s + c, w.p, h});
      });
      break;
    }
  }
  return out;
}
static Texts memstrs(VS p, VS n, G &g) {
  Texts out;
  n = needDef(n, g, "uninit-length");
  std::vector<Ent> ns; each(n, g, [&](Val v, G h) { ns.push_back({v, h}); });
  for (auto &x : ns) {
    struct W { std::string s; Val p; G g; };
    std::vector<W> st;
    G h = B.And(x.g, g);
    each(p, h, [&](Val v, G k) { st.push_back({"", v, k}); });
    while (!st.empty()) {
      W w = std::move(st.back()); st.pop_back();
      for (;;) {
        if (w.g == GF) break;
        if (w.s.size() >= x.v.b) { addText(out, w.s, w.g); break; }
        G k = w.g;
        VS b = loadMem(VS(w.p), 1, k);
        if (k != GF) b = needDef(b, k, "uninit-string");
        if (k != w.g) { g = B.Diff(g, B.Diff(w.g, k)); w.g = k; if (k == GF) break; }
        w.p.b++;
        if (b.single()) { w.s += (char)b.v.b; continue; }
        each(b, w.g, [&](Val v, G hh) { st.push_back({w.s + (char)v.b, w.p, hh}); });
        break;
      }
    }
  }
  return out;
}
static void storeBytes(const VS &p, const std::string &s, G &g) {
  for (size_t i = 0; i < s.size() && g != GF; i++) storeMem(offs(p, i, g), 1, VS(VI((unsigned char)s[i])), g);
}
// the clock may jump once a text was printed a number of times (set up by the driver)
static std::string trigText; static VS trigCount, trigAt, trigBy;
static void emit(const std::string &stream, const Texts &t, G g) {
  if (!trigText.empty() && stream == "stdout") for (auto &x : t) {
    uint64_t c = 0; for (size_t p = x.first.find(trigText); p != std::string::npos; p = x.first.find(trigText, p + 1)) c++;
    G h = B.And(x.second, g); if (!c || h == GF) continue;
    Builder nx; each(trigCount, h, [&](Val n, G k) { nx.add(VI(n.b + c), k); });
    trigCount = mergeVS(trigCount, nx.done(), h, Live);
  }
  Event e; e.g = g; e.t = t;
  streams[stream].push_back(std::move(e));
}

//===------------------------------------------------------------------===//
// allocation
//===------------------------------------------------------------------===//
static std::map<std::pair<const void *, uint64_t>, std::vector<uint32_t>> pool;
static uint64_t nAlloc = 0, nReuse = 0;
static uint32_t allocate(const void *site, uint64_t size, G g, bool arr) {
  auto &v = pool[{site, size}];
  int n = 0;
  for (size_t i = v.size(); i-- > 0 && n < 256; n++) {
    Obj *o = objs[v[i]];
    if (o->arr == arr && B.disj(o->alloc, g)) { o->alloc = B.Or(o->alloc, g); nReuse++; return v[i]; }
  }
  nAlloc++;
  uint32_t o = newObj(size, KHeap); objs[o]->alloc = g; objs[o]->arr = arr;
  v.push_back(o);
  return o;
}
static void doAlloc(Frame *f, PInst &I, G &g, VS size, bool arr, bool zero) {
  size = needDef(size, g, "uninit-size");
  std::vector<Ent> ss; each(size, g, [&](Val v, G h) { ss.push_back({v, h}); });
  Builder bl;
  for (auto &x : ss) {
    uint64_t n = matz(x.v);
    if (n > (1ull << 26)) { violate("huge-allocation", x.g, g); continue; }
    uint32_t o = allocate(&I, n, x.g, arr);
    if (zero) for (uint64_t i = 0; i < n; i++) rawWrite(objs[o], i, 1, VS(VI(0)), x.g);
    bl.add(Val{0, o}, x.g);
  }
  if (g == GF) return;
  ret(f, I, bl.done(), g);
}
static void doFree(Frame *f, PInst &I, G &g, int how) { // 0 free, 1 delete, 2 delete[]
  VS p = needDef(arg(f, I, 0), g, "uninit-free");
  std::vector<Ent> ps; each(p, g, [&](Val v, G h) { ps.push_back({v, h}); });
  for (auto &x : ps) {
    if (x.v.o == 0) { if (x.v.b) violate("invalid-free", x.g, g); continue; }
    Obj *o = objs[x.v.o];
    if (o->kind != KHeap || x.v.b != 0) { violate("invalid-free", x.g, g); continue; }
    if (how && (how == 2) != o->arr) { violate("mismatched-delete", x.g, g); continue; }
    G d = B.And(o->freed, x.g);
    if (d != GF) { violate("double-free", d, g); }
    o->freed = B.Or(o->freed, B.Diff(x.g, d));
  }
}
static void copyMem(VS d, VS s, VS n, G &g) {
  n = needDef(n, g, "uninit-length");
  std::vector<Ent> ns; each(n, g, [&](Val v, G h) { ns.push_back({v, h}); });
  for (auto &nx : ns) {
    uint64_t len = nx.v.b; if (!len) continue;
    std::vector<std::pair<Ent, Ent>> ps;
    each(d, nx.g, [&](Val dv, G h) { each(s, h, [&](Val sv, G k) { ps.push_back({{dv, k}, {sv, k}}); }); });
    for (auto &p : ps) {
      G h = p.first.g;
      if (!checkPtr(p.first.v, len, h, g, true)) continue;
      if (!checkPtr(p.second.v, len, h, g, false)) continue;
      Obj *D = objs[p.first.v.o], *S = objs[p.second.v.o];
      D->lazy(); S->lazy();
      // gather the source first: the regions may overlap
      std::vector<std::pair<uint64_t, std::pair<unsigned, VS>>> items;
      uint64_t i = 0;
      while (i < len) {
        Cell &c = S->c[p.second.v.b + i];
        if (c.sz > 0 && i + c.sz <= len) { items.push_back({i, {(unsigned)c.sz, view(c.v, h)}}); i += c.sz; }
        else if (c.sz == 0) {
          unsigned k = 1;
          items.push_back({i, {k, VS(UNDEF)}}); i += k;
        } else { items.push_back({i, {1u, rawRead(S, p.second.v.b + i, 1, h)}}); i++; }
      }
      for (auto &it : items) rawWrite(D, p.first.v.b + it.first, it.second.first, it.second.second, h);
    }
  }
}
static void setMem(VS d, VS b, VS n, G &g) {
  n = needDef(n, g, "uninit-length");
  std::vector<Ent> ns; each(n, g, [&](Val v, G h) { ns.push_back({v, h}); });
  for (auto &nx : ns) {
    uint64_t len = nx.v.b; if (!len) continue;
    std::vector<Ent> ps; each(d, nx.g, [&](Val v, G h) { ps.push_back({v, h}); });
    for (auto &p : ps) {
      G h = p.g;
      if (!checkPtr(p.v, len, h, g, true)) continue;
      Obj *o = objs[p.v.o]; o->lazy();
      uint64_t i = 0;
      while (i < len) {
        int16_t z = o->c[p.v.b + i].sz;
        if (z > 1 && i + z <= len && b.single() && b.v.o == 0) {
          uint64_t x = 0; for (int k = 0; k < z; k++) x = x << 8 | (b.v.b & 0xff);
          rawWrite(o, p.v.b + i, z, VS(VI(x)), h); i += z;
        } else { rawWrite(o, p.v.b + i, 1, b, h); i++; }
      }
    }
  }
}

//===------------------------------------------------------------------===//
// formatting
//===------------------------------------------------------------------===//
static void formatInto(Frame *f, PInst &I, G &g, const std::string &fmt, unsigned ai, G fg, Texts &out) {
  Texts acc{{"", fg}};
  size_t i = 0;
  while (i < fmt.size()) {
    if (fmt[i] != '%') {
      size_t j = fmt.find('%', i); if (j == std::string::npos) j = fmt.size();
      for (auto &x : acc) x.first += fmt.substr(i, j - i);
      i = j; continue;
    }
    if (i + 1 < fmt.size() && fmt[i + 1] == '%') { for (auto &x : acc) x.first += '%'; i += 2; continue; }
    size_t j = i + 1; std::string spec = "%";
    while (j < fmt.size() && strchr("-+ #0", fmt[j])) spec += fmt[j++];
    auto num = [&]() {
      if (j < fmt.size() && fmt[j] == '*') {
        VS v = ai < nargs(I) ? arg(f, I, ai++) : VS(VI(0)); j++;
        if (!v.single()) unsupported("symbolic format width");
        spec += std::to_string((int)v.v.b);
      } else while (j < fmt.size() && isdigit(fmt[j])) spec += fmt[j++];
    };
    num();
    if (j < fmt.size() && fmt[j] == '.') { spec += fmt[j++]; num(); }
    std::string lm;
    while (j < fmt.size() && strchr("hlLqjzt", fmt[j])) lm += fmt[j++];
    if (j >= fmt.size()) break;
    char c = fmt[j++]; i = j;
    if (ai >= nargs(I)) { violate("missing-format-argument", fg, g); return; }
    VS a = arg(f, I, ai++);
    if (c == 's') {
      Texts nx;
      for (auto &x : acc) {
        G h = B.And(x.second, g);
        VS p = view(a, h);
        if (h == GF) continue;
        Texts ss = cstrs(p, h);
        g = B.Diff(g, B.Diff(B.And(x.second, g), h));
        for (auto &y : ss) { char buf[8192]; snprintf(buf, sizeof buf, (spec + "s").c_str(), y.first.c_str()); addText(nx, x.first + buf, B.And(x.second, y.second)); }
      }
      acc.swap(nx); continue;
    }
    VS d = needDef(a, g, "uninit-printed");
    if (g == GF) return;
    Texts nx;
    for (auto &x : acc) each(d, B.And(x.second, g), [&](Val v, G h) {
      char buf[512]; uint64_t b = matz(v);
      if (strchr("di", c)) { long long s = lm == "l" || lm == "ll" || lm == "z" || lm == "j" || lm == "t" ? (long long)b : (long long)(int)b; snprintf(buf, sizeof buf, (spec + "lld").c_str(), s); }
      else if (strchr("uxXo", c)) { unsigned long long s = !lm.empty() && lm[0] != 'h' ? b : (unsigned long long)(unsigned)b; snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), s); }
      else if (c == 'c') { buf[0] = (char)b; buf[1] = 0; }
      else if (strchr("fFeEgGaA", c)) snprintf(buf, sizeof buf, (spec + c).c_str(), asD(b, false));
      else if (c == 'p') snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)b);
      else unsupported(std::string("format ") + c);
      addText(nx, x.first + buf, h);
    });
    acc.swap(nx);
  }
  for (auto &x : acc) addText(out, x.first, B.And(x.second, g));
}
static Texts formatAll(Frame *f, PInst &I, G &g, unsigned fi) {
  Texts fm = cstrs(arg(f, I, fi), g), out;
  for (auto &x : fm) formatInto(f, I, g, x.first, fi + 1, x.second, out);
  for (auto &x : out) x.second = B.And(x.second, g);
  return out;
}
static VS lengths(const Texts &t) { Builder bl; for (auto &x : t) bl.add(VI(x.first.size()), x.second); return bl.done(); }
static std::string fdName(uint64_t fd);

static void doSscanf(Frame *f, PInst &I, G &g) {
  Texts in = cstrs(arg(f, I, 0), g);
  if (g == GF) return;
  Texts fm = cstrs(arg(f, I, 1), g);
  Builder r;
  for (auto &F : fm) {
    // conversions that take an argument
    struct Cv { char c; std::string lm; };
    std::vector<Cv> cv; const std::string &s = F.first;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] != '%') continue;
      i++; if (i < s.size() && s[i] == '%') continue;
      bool sup = false; if (i < s.size() && s[i] == '*') { sup = true; i++; }
      while (i < s.size() && isdigit(s[i])) i++;
      std::string lm; while (i < s.size() && strchr("hlLqjzt", s[i])) lm += s[i++];
      char c = i < s.size() ? s[i] : 0;
      if (c == '[') { i++; if (i < s.size() && s[i] == '^') i++; if (i < s.size() && s[i] == ']') i++; while (i < s.size() && s[i] != ']') i++; }
      if (!sup) cv.push_back({c, lm});
    }
    if (cv.size() > 8) unsupported("sscanf with many conversions");
    for (auto &T : in) {
      G h = B.And(B.And(F.second, T.second), g);
      if (h == GF) continue;
      static char buf[8][8192]; memset(buf, 0, sizeof buf);
      if (T.first.size() > 8000) unsupported("sscanf of a very long string");
      for (auto &c : cv) if (c.c == 'n') unsupported("sscanf %n");
      int n = sscanf(T.first.c_str(), F.first.c_str(), buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
      for (int i = 0; i < n && i < (int)cv.size(); i++) {
        if (2 + i >= (int)nargs(I)) { violate("missing-format-argument", h, g); break; }
        VS p = view(arg(f, I, 2 + i), h); G hh = h;
        char c = cv[i].c; const std::string &lm = cv[i].lm;
        if (strchr("diuxXo", c)) {
          unsigned sz = lm == "l" || lm == "ll" || lm == "z" || lm == "j" ? 8 : lm == "h" ? 2 : lm == "hh" ? 1 : 4;
          uint64_t v = 0; memcpy(&v, buf[i], sz); storeMem(p, sz, VS(VI(v)), hh);
        } else if (c == 'c') storeMem(p, 1, VS(VI((unsigned char)buf[i][0])), hh);
        else if (strchr("feg", c)) { unsigned sz = lm == "l" ? 8 : 4; uint64_t v = 0; memcpy(&v, buf[i], sz); storeMem(p, sz, VS(VI(v)), hh); }
        else if (c == 's' || c == '[') storeBytes(p, std::string(buf[i]) + '\0', hh);
        else unsupported("sscanf conversion");
        if (hh != h) { g = B.Diff(g, B.Diff(h, hh)); h = hh; if (h == GF) break; }
      }
      r.add(VI((uint32_t)n), h);
    }
  }
  if (g != GF) ret(f, I, r.done(), g);
}

//===------------------------------------------------------------------===//
// files, clock, randomness (set up by the driver)
//===------------------------------------------------------------------===//
struct VFile { uint32_t obj; VS len; G openable; };
static std::map<std::string, VFile> vfiles;
static G wfail = GF;                       // inputs under which output files cannot be opened
static std::vector<std::string> handles;   // output handles
static std::map<std::string, int> handleOf;
static std::string fdName(uint64_t fd) {
  if (fd == 1) return "stdout";
  if (fd == 2) return "stderr";
  if (fd >= 16 && fd - 16 < handles.size()) return handles[fd - 16];
  return "fd" + std::to_string(fd);
}
struct NumGuard { std::vector<Ent> e; };
static std::vector<VS> randDraws;          // k-th draw
static VS nrand;                           // number of draws so far, per state
static uint64_t maxRand = 0;
static VS nclock;                          // number of clock readings so far
static VS clockAt, clockBy;                // jump at reading N, by this many milliseconds
static std::vector<uint64_t> fillRand;

static Texts fmtInt(Frame *f, PInst &I, G &g, VS v, unsigned bits, bool sg, uint64_t flags, VS width, char fill) {
  v = needDef(v, g, "uninit-printed");
  Texts t;
  if (g == GF) return t;
  std::vector<Ent> ws; each(width, g, [&](Val x, G h) { ws.push_back({x, h}); });
  for (auto &w : ws) each(v, w.g, [&](Val x, G h) {
    char buf[80]; uint64_t b = matz(x) & maskw(bits);
    if (flags & 8) snprintf(buf, sizeof buf, "%llx", (unsigned long long)b);
    else if (flags & 64) snprintf(buf, sizeof buf, "%llo", (unsigned long long)b);
    else if (sg) snprintf(buf, sizeof buf, "%lld", (long long)sext(b, bits));
    else snprintf(buf, sizeof buf, "%llu", (unsigned long long)b);
    std::string s = buf;
    if (s.size() < w.v.b && w.v.b < 4096) { std::string pad(w.v.b - s.size(), fill); s = (flags & 32) ? s + pad : pad + s; }
    addText(t, s, h);
  });
  return t;
}

static VS cmpTexts(const Texts &a, const Texts &b, G g, bool n, size_t lim) {
  Builder bl;
  for (auto &x : a) for (auto &y : b) {
    G h = B.And(B.And(x.second, y.second), g);
    if (h == GF) continue;
    std::string p = n ? x.first.substr(0, lim) : x.first, q = n ? y.first.substr(0, lim) : y.first;
    int c = strcmp(p.c_str(), q.c_str());
    bl.add(VI((uint32_t)(c < 0 ? -1 : c > 0 ? 1 : 0)), h);
  }
  return bl.done();
}

static void math1(const char *name, double (*fn)(double)) {
  intrs[name] = [fn](Frame *f, PInst &I, G &g) {
    bool f32 = I.w == 32;
    ret(f, I, map1(arg(f, I, 0), g, [fn, f32](Val v) { return VI(fromD(fn(asD(v.b, f32)), f32)); }), g);
  };
}
static void int2(const char *name, std::function<uint64_t(uint64_t, uint64_t, unsigned)> fn) {
  intrs[name] = [fn](Frame *f, PInst &I, G &g) {
    unsigned w = I.w;
    ret(f, I, map2(arg(f, I, 0), arg(f, I, 1), g, [&](Val a, Val b) {
      if (a.o && a.o == b.o) return Val{fn(a.b, b.b, w) & maskw(w), a.o};
      return VI(fn(matz(a), matz(b), w) & maskw(w)); }), g);
  };
}
static void ovf(const char *name, int kind, bool sg) {
  intrs[name] = [kind, sg](Frame *f, PInst &I, G &g) {
    std::vector<Leaf> l; flatten(I.I->getType(), 0, l);
    unsigned w = widthOf(l[0].t);
    auto calc = [&](Val a, Val b, bool &o) {
      __int128 x = sg ? (__int128)sext(matz(a), w) : (__int128)(matz(a) & maskw(w));
      __int128 y = sg ? (__int128)sext(matz(b), w) : (__int128)(matz(b) & maskw(w));
      __int128 r = kind == 0 ? x + y : kind == 1 ? x - y : x * y;
      uint64_t t = (uint64_t)r & maskw(w);
      __int128 back = sg ? (__int128)sext(t, w) : (__int128)t;
      o = back != r;
      return t;
    };
    VS a = arg(f, I, 0), b = arg(f, I, 1);
    VS r = map2(a, b, g, [&](Val x, Val y) { bool o; return VI(calc(x, y, o)); });
    VS q = map2(a, b, g, [&](Val x, Val y) { bool o; calc(x, y, o); return VI(o); });
    setReg(f, I.dst, r, g); setReg(f, I.dst + 1, q, g);
  };
}

static void initIntrinsics() {
  auto A = [](const char *n, bool arr, bool zero) { intrs[n] = [arr, zero](Frame *f, PInst &I, G &g) { doAlloc(f, I, g, arg(f, I, 0), arr, zero); }; };
  A("_Znwm", false, false); A("_Znam", true, false); A("malloc", false, false);
  A("_ZnwmRKSt9nothrow_t", false, false); A("_ZnamRKSt9nothrow_t", true, false);
  intrs["calloc"] = [](Frame *f, PInst &I, G &g) {
    VS n = map2(arg(f, I, 0), arg(f, I, 1), g, [](Val a, Val b) { return VI(a.b * b.b); });
    doAlloc(f, I, g, n, false, true);
  };
  intrs["free"] = [](Frame *f, PInst &I, G &g) { doFree(f, I, g, 0); };
  intrs["_ZdlPv"] = intrs["_ZdlPvm"] = [](Frame *f, PInst &I, G &g) { doFree(f, I, g, 1); };
  intrs["_ZdaPv"] = intrs["_ZdaPvm"] = [](Frame *f, PInst &I, G &g) { doFree(f, I, g, 2); };
  auto cp = [](Frame *f, PInst &I, G &g) { copyMem(arg(f, I, 0), arg(f, I, 1), arg(f, I, 2), g); ret(f, I, view(arg(f, I, 0), g), g); };
  intrs["llvm.memcpy"] = intrs["llvm.memmove"] = intrs["memcpy"] = intrs["memmove"] = intrs["llvm.memcpy.inline"] = cp;
  auto ms = [](Frame *f, PInst &I, G &g) {
    VS b = map1(arg(f, I, 1), g, [](Val v) { return VI(v.b & 0xff); });
    setMem(arg(f, I, 0), b, arg(f, I, 2), g); ret(f, I, view(arg(f, I, 0), g), g);
  };
  intrs["llvm.memset"] = intrs["memset"] = ms;

  int2("llvm.umin", [](uint64_t a, uint64_t b, unsigned) { return a < b ? a : b; });
  int2("llvm.umax", [](uint64_t a, uint64_t b, unsigned) { return a > b ? a : b; });
  int2("llvm.smin", [](uint64_t a, uint64_t b, unsigned w) { return sext(a, w) < sext(b, w) ? a : b; });
  int2("llvm.smax", [](uint64_t a, uint64_t b, unsigned w) { return sext(a, w) > sext(b, w) ? a : b; });
  int2("llvm.usub.sat", [](uint64_t a, uint64_t b, unsigned) { return a > b ? a - b : 0; });
  auto u1 = [](const char *n, std::function<uint64_t(uint64_t, unsigned)> fn) {
    intrs[n] = [fn](Frame *f, PInst &I, G &g) { unsigned w = I.w; ret(f, I, map1(arg(f, I, 0), g, [&](Val v) { return VI(fn(matz(v), w) & maskw(w)); }), g); };
  };
  u1("llvm.abs", [](uint64_t v, unsigned w) { int64_t s = sext(v, w); return (uint64_t)(s < 0 ? -(uint64_t)s : s); });
  u1("abs", [](uint64_t v, unsigned w) { int64_t s = sext(v, w); return (uint64_t)(s < 0 ? -(uint64_t)s : s); });
  u1("labs", [](uint64_t v, unsigned w) { int64_t s = sext(v, w); return (uint64_t)(s < 0 ? -(uint64_t)s : s); });
  u1("llvm.ctpop", [](uint64_t v, unsigned w) { return (uint64_t)__builtin_popcountll(v & maskw(w)); });
  u1("llvm.cttz", [](uint64_t v, unsigned w) { v &= maskw(w); return v ? (uint64_t)__builtin_ctzll(v) : w; });
  u1("llvm.ctlz", [](uint64_t v, unsigned w) { v &= maskw(w); return v ? (uint64_t)(__builtin_clzll(v) - (64 - w)) : w; });
  u1("llvm.bswap", [](uint64_t v, unsigned w) { return __builtin_bswap64(v) >> (64 - w); });
  u1("toupper", [](uint64_t v, unsigned) { return (uint64_t)toupper((int)v); });
  u1("tolower", [](uint64_t v, unsigned) { return (uint64_t)tolower((int)v); });
  u1("isdigit", [](uint64_t v, unsigned) { return (uint64_t)(isdigit((int)v) != 0); });
  u1("isspace", [](uint64_t v, unsigned) { return (uint64_t)(isspace((int)v) != 0); });
  u1("isalnum", [](uint64_t v, unsigned) { return (uint64_t)(isalnum((int)v) != 0); });
  u1("isupper", [](uint64_t v, unsigned) { return (uint64_t)(isupper((int)v) != 0); });
  u1("islower", [](uint64_t v, unsigned) { return (uint64_t)(islower((int)v) != 0); });
  u1("isxdigit", [](uint64_t v, unsigned) { return (uint64_t)(isxdigit((int)v) != 0); });
  u1("ispunct", [](uint64_t v, unsigned) { return (uint64_t)(ispunct((int)v) != 0); });
  u1("isblank", [](uint64_t v, unsigned) { return (uint64_t)(isblank((int)v) != 0); });
  u1("isprint", [](uint64_t v, unsigned) { return (uint64_t)(isprint((int)v) != 0); });
  u1("isalpha", [](uint64_t v, unsigned) { return (uint64_t)(isalpha((int)v) != 0); });
  ovf("llvm.sadd.with.overflow", 0, true); ovf("llvm.uadd.with.overflow", 0, false);
  ovf("llvm.ssub.with.overflow", 1, true); ovf("llvm.usub.with.overflow", 1, false);
  ovf("llvm.smul.with.overflow", 2, true); ovf("llvm.umul.with.overflow", 2, false);
  math1("fabs", fabs); math1("llvm.fabs", fabs); math1("sqrt", sqrt); math1("floor", floor); math1("ceil", ceil); math1("llvm.floor", floor);
  math1("llvm.ceil", ceil); math1("log", log); math1("log2", log2); math1("exp", exp); math1("round", round);
  intrs["pow"] = intrs["llvm.pow"] = [](Frame *f, PInst &I, G &g) {
    ret(f, I, map2(arg(f, I, 0), arg(f, I, 1), g, [](Val a, Val b) { return VI(fromD(pow(asD(a.b, false), asD(b.b, false)), false)); }), g);
  };
  intrs["llvm.fmuladd"] = intrs["llvm.fma"] = [](Frame *f, PInst &I, G &g) {
    VS p = map2(arg(f, I, 0), arg(f, I, 1), g, [](Val a, Val b) { return VI(fromD(asD(a.b, false) * asD(b.b, false), false)); });
    ret(f, I, map2(p, arg(f, I, 2), g, [](Val a, Val b) { return VI(fromD(asD(a.b, false) + asD(b.b, false), false)); }), g);
  };
  intrs["llvm.expect"] = [](Frame *f, PInst &I, G &g) { ret(f, I, view(arg(f, I, 0), g), g); };
  intrs["llvm.is.constant"] = [](Frame *f, PInst &I, G &g) { ret(f, I, VS(VI(0)), g); };
  intrs["llvm.objectsize"] = [](Frame *f, PInst &I, G &g) { ret(f, I, VS(VI(~0ull)), g); };
  intrs["llvm.stacksave"] = [](Frame *f, PInst &I, G &g) { ret(f, I, VS(VI(0)), g); };
  intrs["llvm.stackrestore"] = [](Frame *, PInst &, G &) {};
  intrs["llvm.trap"] = [](Frame *f, PInst &I, G &g) { violate("trap", g, g); };
  intrs["llvm.eh.typeid.for"] = [](Frame *f, PInst &I, G &g) { ret(f, I, VS(VI(1)), g); };
  intrs["__vf_unreachable"] = [](Frame *f, PInst &I, G &g) { violate("missing-return-or-unreachable", g, g); };
  for (const char *n : {"__cxa_throw", "__cxa_rethrow", "__cxa_throw_bad_array_new_length", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "__cxa_bad_cast", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"})
    intrs[n] = [](Frame *f, PInst &I, G &g) { violate("exception", g, g); };
  intrs["__cxa_allocate_exception"] = [](Frame *f, PInst &I, G &g) { uint32_t o = newObj(256, KHeap); objs[o]->alloc = GT; ret(f, I, VS(Val{0, o}), g); };
  intrs["__cxa_atexit"] = intrs["atexit"] = [](Frame *f, PInst &I, G &g) { ret(f, I, VS(VI(0)), g); };
  intrs["__cxa_guard_acquire"] = [](Frame *f, PInst &I, G &g) {
    VS v = loadMem(arg(f, I, 0), 1, g);
    ret(f, I, map1(v, g, [](Val x) { return VI(x.b == 0); }), g);
  };
  intrs["__cxa_guard_release"] = [](Frame *f, PInst &I, G &g) { storeMem(arg(f, I, 0), 1, VS(VI(1)), g); };
  intrs["exit"] = intrs["_exit"] = intrs["quick_exit"] = [](Frame *f, PInst &I, G &g) {
    VS c = needDef(arg(f, I, 0), g, "uninit-exit-code");
    std::vector<Ent> cs; each(c, g, [&](Val v, G h) { cs.push_back({v, h}); });
    for (auto &x : cs) exits.push_back({(int)x.v.b, x.g, "exit"});
    kill(curF, g, g);
  };
  intrs["abort"] = [](Frame *f, PInst &I, G &g) { violate("abort", g, g); };

  // strings
  intrs["strlen"] = [](Frame *f, PInst &I, G &g) { Texts t = cstrs(arg(f, I, 0), g); if (g != GF) ret(f, I, view(lengths(t), g), g); };
  intrs["strcmp"] = [](Frame *f, PInst &I, G &g) {
    Texts a = cstrs(arg(f, I, 0), g); if (g == GF) return;
    Texts b = cstrs(arg(f, I, 1), g); if (g != GF) ret(f, I, cmpTexts(a, b, g, false, 0), g);
  };
  intrs["strncmp"] = [](Frame *f, PInst &I, G &g) {
    VS n = arg(f, I, 2); if (!n.single()) unsupported("strncmp with symbolic length");
    Texts a = cstrs(arg(f, I, 0), g, n.v.b); if (g == GF) return;
    Texts b = cstrs(arg(f, I, 1), g, n.v.b); if (g != GF) ret(f, I, cmpTexts(a, b, g, true, n.v.b), g);
  };
  intrs["memcmp"] = intrs["bcmp"] = [](Frame *f, PInst &I, G &g) {
    Texts a = memstrs(arg(f, I, 0), arg(f, I, 2), g); if (g == GF) return;
    Texts b = memstrs(arg(f, I, 1), arg(f, I, 2), g); if (g == GF) return;
    Builder bl;
    for (auto &x : a) for (auto &y : b) {
      G h = B.And(B.And(x.second, y.second), g); if (h == GF || x.first.size() != y.first.size()) continue;
      int c = memcmp(x.first.data(), y.first.data(), x.first.size());
      bl.add(VI((uint32_t)(c < 0 ? -1 : c > 0)), h);
    }
    ret(f, I, bl.done(), g);
  };
  intrs["memchr"] = [](Frame *f, PInst &I, G &g) {
    // byte-wise search under guards
    VS p = arg(f, I, 0), c = arg(f, I, 1), n = needDef(arg(f, I, 2), g, "uninit-length");
    Builder bl;
    std::vector<Ent> ns; each(n, g, [&](Val v, G h) { ns.push_back({v, h}); });
    for (auto &x : ns) {
      G left = B.And(x.g, g);
      for (uint64_t i = 0; i < x.v.b && left != GF; i++) {
        G k = left; VS q = view(offs(p, i, left), left);
        VS b = loadMem(q, 1, k);
        if (k != left) { g = B.Diff(g, B.Diff(left, k)); left = k; if (k == GF) break; }
        G hit = GF;
        each(b, left, [&](Val v, G h) { each(c, h, [&](Val cc, G hh) { if ((v.b & 0xff) == (cc.b & 0xff)) hit = B.Or(hit, hh); }); });
        if (hit != GF) { each(q, hit, [&](Val v, G h) { bl.add(v, h); }); left = B.Diff(left, hit); }
      }
      bl.add(VI(0), left);
    }
    if (g != GF) ret(f, I, bl.done(), g);
  };
  intrs["strchr"] = intrs["strrchr"] = [](Frame *f, PInst &I, G &g) {
    bool rev = I.callee->getName() == "strrchr";
    VS p = arg(f, I, 0), c = arg(f, I, 1); Builder bl;
    std::vector<Ent> ps; each(p, g, [&](Val v, G h) { ps.push_back({v, h}); });
    for (auto &x : ps) {
      G h = B.And(x.g, g); G h0 = h;
      if (h == GF) continue;
      Texts t = cstrs(VS(x.v), h);
      if (h != h0) g = B.Diff(g, B.Diff(h0, h));
      for (auto &s : t) each(c, B.And(s.second, h), [&](Val cc, G k) {
        const char *b = s.first.c_str(), *q = rev ? strrchr(b, (int)cc.b) : strchr(b, (int)cc.b);
        if (q) bl.add(Val{x.v.b + (q - b), x.v.o}, k); else bl.add(VI(0), k);
      });
    }
    if (g != GF) ret(f, I, bl.done(), g);
  };
  intrs["strcpy"] = intrs["strcat"] = [](Frame *f, PInst &I, G &g) {
    Texts s = cstrs(arg(f, I, 1), g); if (g == GF) return;
    Texts d; if (I.callee->getName() == "strcat") d = cstrs(arg(f, I, 0), g); else d = Texts{{"", g}};
    VS p = arg(f, I, 0);
    for (auto &x : s) for (auto &y : d) {
      G h = B.And(B.And(x.second, y.second), g); if (h == GF) continue; G h0 = h;
      storeBytes(view(offs(p, y.first.size(), h), h), x.first + '\0', h);
      if (h != h0) g = B.Diff(g, B.Diff(h0, h));
    }
    if (g != GF) ret(f, I, view(p, g), g);
  };
  auto strnum = [](Frame *f, PInst &I, G &g) {
    std::string n = I.callee->getName().str();
    Texts t = cstrs(arg(f, I, 0), g); if (g == GF) return;
    Builder bl; int base = 10;
    if (n.find("strto") != std::string::npos && nargs(I) > 2) {
      VS b = arg(f, I, 2); if (!b.single()) unsupported("symbolic base"); base = (int)b.v.b;
    }
    bool fp = n == "atof" || n == "strtod";
    std::vector<std::pair<uint64_t, G>> used;
    for (auto &x : t) {
      char *e = nullptr; uint64_t v;
      if (fp) v = fromD(strtod(x.first.c_str(), &e), false);
      else if (n == "strtoul" || n == "strtoull" || n == "__isoc23_strtoul") v = strtoul(x.first.c_str(), &e, base);
      else v = (uint64_t)strtol(x.first.c_str(), &e, base);
      if (n == "atoi") v = (uint32_t)v;
      bl.add(VI(v), x.second);
      used.push_back({(uint64_t)(e - x.first.c_str()), x.second});
    }
    if (n.find("strto") != std::string::npos && nargs(I) > 1 && !arg(f, I, 1).isConst(0)) {
      VS ep = arg(f, I, 1), p = arg(f, I, 0);
      for (auto &u : used) { G h = B.And(u.second, g); if (h == GF) continue; G h0 = h; storeMem(view(ep, h), 8, view(offs(p, u.first, h), h), h); if (h != h0) g = B.Diff(g, B.Diff(h0, h)); }
    }
    if (g != GF) ret(f, I, view(bl.done(), g), g);
  };
  for (const char *n : {"atoi", "atol", "atoll", "atof", "strtol", "strtoll", "strtoul", "strtoull", "strtod", "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll"}) intrs[n] = strnum;
  intrs["__errno_location"] = [](Frame *f, PInst &I, G &g) {
    static uint32_t o = 0; if (!o) { o = newObj(4, KGlobal, "errno"); objs[o]->alloc = GT; rawWrite(objs[o], 0, 4, VS(VI(0)), Live); }
    ret(f, I, VS(Val{0, o}), g);
  };
  intrs["sscanf"] = intrs["__isoc99_sscanf"] = intrs["__isoc23_sscanf"] = doSscanf;

  // output
  intrs["printf"] = [](Frame *f, PInst &I, G &g) { Texts t = formatAll(f, I, g, 0); if (g == GF) return; emit("stdout", t, g); ret(f, I, view(lengths(t), g), g); };
  intrs["fprintf"] = [](Frame *f, PInst &I, G &g) {
    Texts t = formatAll(f, I, g, 1); if (g == GF) return;
    each(arg(f, I, 0), g, [&](Val v, G h) { Texts u; for (auto &x : t) addText(u, x.first, B.And(x.second, h)); emit(v.o ? "?" : fdName(v.b), u, h); });
    ret(f, I, view(lengths(t), g), g);
  };
  intrs["snprintf"] = intrs["sprintf"] = [](Frame *f, PInst &I, G &g) {
    bool n = I.callee->getName() == "snprintf";
    Texts t = formatAll(f, I, g, n ? 2 : 1); if (g == GF) return;
    for (auto &x : t) {
      std::string s = x.first;
      if (n) { VS lim = arg(f, I, 1); if (!lim.single()) unsupported("symbolic snprintf size"); if (lim.v.b == 0) continue; if (s.size() >= lim.v.b) s.resize(lim.v.b - 1); }
      G h = B.And(x.second, g); G h0 = h;
      storeBytes(view(arg(f, I, 0), h), s + '\0', h);
      if (h != h0) g = B.Diff(g, B.Diff(h0, h));
    }
    if (g != GF) ret(f, I, view(lengths(t), g), g);
  };
  intrs["puts"] = [](Frame *f, PInst &I, G &g) { Texts t = cstrs(arg(f, I, 0), g); if (g == GF) return; for (auto &x : t) x.first += "\n"; emit("stdout", t, g); ret(f, I, VS(VI(1)), g); };
  intrs["putchar"] = [](Frame *f, PInst &I, G &g) { Texts t; each(arg(f, I, 0), g, [&](Val v, G h) { addText(t, std::string(1, (char)v.b), h); }); emit("stdout", t, g); ret(f, I, VS(VI(1)), g); };
  intrs["fputs"] = [](Frame *f, PInst &I, G &g) {
    Texts t = cstrs(arg(f, I, 0), g); if (g == GF) return;
    each(arg(f, I, 1), g, [&](Val v, G h) { Texts u; for (auto &x : t) addText(u, x.first, B.And(x.second, h)); emit(fdName(v.b), u, h); });
    ret(f, I, VS(VI(1)), g);
  };
  intrs["fputc"] = intrs["putc"] = [](Frame *f, PInst &I, G &g) {
    each(arg(f, I, 1), g, [&](Val v, G h) { Texts t; each(arg(f, I, 0), h, [&](Val c, G k) { addText(t, std::string(1, (char)c.b), k); }); emit(fdName(v.b), t, h); });
    ret(f, I, VS(VI(1)), g);
  };
  intrs["fflush"] = [](Frame *f, PInst &I, G &g) { ret(f, I, VS(VI(0)), g); };
  // __vf_write(fd, p, n)
  intrs["__vf_write"] = [](Frame *f, PInst &I, G &g) {
    Texts t = memstrs(arg(f, I, 1), arg(f, I, 2), g); if (g == GF) return;
    each(needDef(arg(f, I, 0), g, "uninit-stream"), g, [&](Val v, G h) { Texts u; for (auto &x : t) addText(u, x.first, B.And(x.second, h)); emit(fdName(v.b), u, h); });
  };
  // __vf_puts(fd, cstr)
  intrs["__vf_puts"] = [](Frame *f, PInst &I, G &g) {
    Texts t = cstrs(arg(f, I, 1), g); if (g == GF) return;
    each(needDef(arg(f, I, 0), g, "uninit-stream"), g, [&](Val v, G h) { Texts u; for (auto &x : t) addText(u, x.first, B.And(x.second, h)); emit(fdName(v.b), u, h); });
  };
  // __vf_out_int(fd, value, bits, signed, flags, width, fill)
  intrs["__vf_out_int"] = [](Frame *f, PInst &I, G &g) {
    auto k = [&](int i) { VS v = arg(f, I, i); if (!v.single()) unsupported("symbolic stream flags"); return v.v.b; };
    Texts t = fmtInt(f, I, g, arg(f, I, 1), k(2), k(3), k(4), arg(f, I, 5), (char)k(6)); if (g == GF) return;
    each(needDef(arg(f, I, 0), g, "uninit-stream"), g, [&](Val v, G h) { Texts u; for (auto &x : t) addText(u, x.first, B.And(x.second, h)); emit(fdName(v.b), u, h); });
  };
  // int __vf_fmt_int(buf, value, bits, signed, flags, width, fill)
  intrs["__vf_fmt_int"] = [](Frame *f, PInst &I, G &g) {
    auto k = [&](int i) { VS v = arg(f, I, i); if (!v.single()) unsupported("symbolic stream flags"); return v.v.b; };
    Texts t = fmtInt(f, I, g, arg(f, I, 1), k(2), k(3), k(4), arg(f, I, 5), (char)k(6)); if (g == GF) return;
    for (auto &x : t) { G h = B.And(x.second, g); G h0 = h; storeBytes(view(arg(f, I, 0), h), x.first + '\0', h); if (h != h0) g = B.Diff(g, B.Diff(h0, h)); }
    if (g != GF) ret(f, I, view(lengths(t), g), g);
  };
  // int __vf_fmt_double(buf, v, precision, fixed)
  intrs["__vf_fmt_double"] = [](Frame *f, PInst &I, G &g) {
    VS pr = arg(f, I, 2), fx = arg(f, I, 3); if (!pr.single() || !fx.single()) unsupported("symbolic stream flags");
    VS d = needDef(arg(f, I, 1), g, "uninit-printed"); if (g == GF) return;
    Texts t; each(d, g, [&](Val v, G h) { char b[512]; snprintf(b, sizeof b, fx.v.b ? "%.*f" : "%.*g", (int)pr.v.b, asD(v.b, false)); addText(t, b, h); });
    for (auto &x : t) { G h = B.And(x.second, g); storeBytes(view(arg(f, I, 0), h), x.first + '\0', h); }
    ret(f, I, view(lengths(t), g), g);
  };
  // long __vf_open_read(name): handle index or -1
  intrs["__vf_open_read"] = [](Frame *f, PInst &I, G &g) {
    // opening with a null or wild name is an error of the program
    Texts t = cstrs(arg(f, I, 0), g); if (g == GF) return;
    Builder bl;
    for (auto &x : t) {
      int idx = -1, i = 0; G ok = GF;
      for (auto &v : vfiles) { if (v.first == x.first) { idx = i; ok = v.second.openable; } i++; }
      G h = B.And(x.second, g);
      if (idx >= 0) { bl.add(VI((uint64_t)idx), B.And(h, ok)); bl.add(VI(~0ull), B.Diff(h, ok)); }
      else bl.add(VI(~0ull), h);
    }
    ret(f, I, bl.done(), g);
  };
  intrs["__vf_data"] = [](Frame *f, PInst &I, G &g) {
    Builder bl;
    each(arg(f, I, 0), g, [&](Val v, G h) { int i = 0; for (auto &x : vfiles) { if (i++ == (int)v.b) bl.add(Val{0, x.second.obj}, h); } });
    ret(f, I, bl.done(), g);
  };
  intrs["__vf_size"] = [](Frame *f, PInst &I, G &g) {
    Builder bl;
    each(arg(f, I, 0), g, [&](Val v, G h) { int i = 0; for (auto &x : vfiles) { if (i++ == (int)v.b) each(x.second.len, h, [&](Val l, G k) { bl.add(l, k); }); } });
    ret(f, I, bl.done(), g);
  };
  // long __vf_open_write(name, append)
  intrs["__vf_open_write"] = [](Frame *f, PInst &I, G &g) {
    Texts t = cstrs(arg(f, I, 0), g); if (g == GF) return;
    Builder bl;
    for (auto &x : t) {
      G h = B.And(x.second, g);
      std::string nm = "file:" + x.first;
      if (!handleOf.count(nm)) { handleOf[nm] = handles.size(); handles.push_back(nm); }
      G ok = B.Diff(h, wfail);
      if (x.first.rfind("/nonexistent", 0) == 0) ok = GF;
      bl.add(VI(16 + handleOf[nm]), ok); bl.add(VI(~0ull), B.Diff(h, ok));
      emit(nm, Texts{}, ok);
    }
    ret(f, I, bl.done(), g);
  };
  // time
  auto tick = [](G &g, VS &cur) { // returns milliseconds
    Builder sec, nx;
    each(nclock, g, [&](Val n, G h) {
      nx.add(VI(n.b + 1), h);
      each(clockAt, h, [&](Val at, G k) { each(clockBy, k, [&](Val by, G q) { sec.add(VI(1000000000ull + (n.b >= at.b ? by.b : 0)), q); }); });
    });
    VS s = sec.done(); nclock = mergeVS(nclock, nx.done(), g, Live);
    if (!trigText.empty()) {
      Builder tb;
      each(s, g, [&](Val b, G h) { each(trigCount, h, [&](Val n, G k) { each(trigAt, k, [&](Val at, G q) { each(trigBy, q, [&](Val by, G r) { tb.add(VI(b.b + (n.b >= at.b ? by.b : 0)), r); }); }); }); });
      s = tb.done();
    }
    cur = s;
  };
  intrs["gettimeofday"] = [tick](Frame *f, PInst &I, G &g) {
    VS s; tick(g, s);
    storeMem(arg(f, I, 0), 8, map1(s, g, [](Val v) { return VI(v.b / 1000); }), g); if (g == GF) return;
    storeMem(offs(arg(f, I, 0), 8, g), 8, map1(s, g, [](Val v) { return VI(v.b % 1000 * 1000); }), g);
    ret(f, I, VS(VI(0)), g);
  };
  intrs["clock_gettime"] = [tick](Frame *f, PInst &I, G &g) {
    VS s; tick(g, s);
    storeMem(arg(f, I, 1), 8, map1(s, g, [](Val v) { return VI(v.b / 1000); }), g); if (g == GF) return;
    storeMem(offs(arg(f, I, 1), 8, g), 8, map1(s, g, [](Val v) { return VI(v.b % 1000 * 1000000); }), g);
    ret(f, I, VS(VI(0)), g);
  };
  intrs["time"] = [tick](Frame *f, PInst &I, G &g) {
    VS s; tick(g, s); VS p = arg(f, I, 0); s = map1(s, g, [](Val v) { return VI(v.b / 1000); });
    if (!p.isConst(0)) storeMem(p, 8, s, g);
    if (g != GF) ret(f, I, s, g);
  };
  intrs["clock"] = [tick](Frame *f, PInst &I, G &g) { VS s; tick(g, s); ret(f, I, map1(s, g, [](Val v) { return VI(v.b * 1000); }), g); };
  intrs["_ZNSt6chrono3_V212steady_clock3nowEv"] = intrs["_ZNSt6chrono3_V212system_clock3nowEv"] = [tick](Frame *f, PInst &I, G &g) { VS s; tick(g, s); ret(f, I, map1(s, g, [](Val v) { return VI(v.b * 1000000ull); }), g); };
  // randomness
  intrs["srand"] = intrs["srandom"] = [](Frame *, PInst &, G &) {};
  intrs["rand"] = intrs["random"] = intrs["lrand48"] = [](Frame *f, PInst &I, G &g) {
    Builder bl, nx;
    each(nrand, g, [&](Val n, G h) {
      if (n.b + 1 > maxRand) maxRand = n.b + 1;
      nx.add(VI(n.b + 1), h);
      if (n.b < randDraws.size()) each(randDraws[n.b], h, [&](Val v, G k) { bl.add(v, k); });
      else bl.add(VI(fillRand.empty() ? 0 : fillRand[(n.b - randDraws.size()) % fillRand.size()]), h);
    });
    nrand = mergeVS(nrand, nx.done(), g, Live);
    ret(f, I, bl.done(), g);
  };
}

//===------------------------------------------------------------------===//
// preparation of the module
//===------------------------------------------------------------------===//
static int prepare(const char *in, const char *out) {
  SMDiagnostic err;
  M = parseIRFile(in, err, Ctx);
  if (!M) { err.print("symex", errs()); return 2; }
  FunctionCallee un = M->getOrInsertFunction("__vf_unreachable", FunctionType::get(Type::getVoidTy(Ctx), false));
  Function *mainF = M->getFunction("main");
  if (!mainF) { errs() << "no main\n"; return 2; }
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    std::vector<Instruction *> us;
    for (Instruction &I : instructions(F)) if (isa<UnreachableInst>(I)) us.push_back(&I);
    for (Instruction *u : us) {
      Instruction *p = u->getPrevNode();
      if (p) if (auto *C = dyn_cast<CallBase>(p)) if (C->doesNotReturn()) continue;
      CallInst *c = CallInst::Create(un, "", u); c->setDebugLoc(u->getDebugLoc());
    }
  }
  // start function: constructors, then main
  IRBuilder<> b(Ctx);
  Type *i32 = Type::getInt32Ty(Ctx), *ptr = PointerType::getUnqual(Ctx);
  Function *S = Function::Create(FunctionType::get(i32, {i32, ptr}, false), Function::ExternalLinkage, "__vf_start", *M);
  b.SetInsertPoint(BasicBlock::Create(Ctx, "entry", S));
  std::vector<std::pair<uint64_t, Function *>> ctors;
  if (GlobalVariable *gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *fn = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    gc->eraseFromParent();
  }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &c) { return a.first < c.first; });
  for (auto &c : ctors) b.CreateCall(c.second);
  std::vector<Value *> as;
  for (unsigned i = 0; i < mainF->arg_size(); i++) as.push_back(S->getArg(i));
  Value *r = b.CreateCall(mainF, as);
  b.CreateRet(mainF->getReturnType()->isVoidTy() ? (Value *)b.getInt32(0) : r);
  for (Function &F : *M) if (!F.isDeclaration() && &F != S) F.setLinkage(GlobalValue::InternalLinkage);
  LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
  PassBuilder pb;
  pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
  pb.crossRegisterProxies(lam, fam, cam, mam);
  ModulePassManager mpm;
  const char *pipe = getenv("VF_PIPE");
  if (auto e = pb.parsePassPipeline(mpm, pipe ? pipe : "globaldce,cgscc(inline),function(sroa,early-cse,simplifycfg),globaldce")) { errs() << toString(std::move(e)) << "\n"; return 2; }
  mpm.run(*M, mam);
  std::error_code ec; raw_fd_ostream os(out, ec);
  WriteBitcodeToFile(*M, os);
  return 0;
}

//===------------------------------------------------------------------===//
// driver
//===------------------------------------------------------------------===//
struct Field { std::string name; unsigned n, lo, bits; std::vector<G> code; };
static std::map<std::string, Field> fields;
static std::vector<std::string> fieldOrder;
static unsigned nVars = 0;
static Field &fieldOf(StringRef n) {
  auto it = fields.find(n.str());
  if (it == fields.end()) { errs() << "no field " << n << "\n"; exit(2); }
  return it->second;
}
typedef std::vector<std::pair<uint64_t, G>> Offs;
static void writeSegs(Obj *o, const json::Value &v, Offs &at) {
  if (auto s = v.getAsString()) {
    for (auto &p : at) {
      for (size_t i = 0; i < s->size(); i++) {
        uint64_t q = p.first + i;
        while (o->size <= q) o->size = o->size ? o->size * 2 : 64;
        rawWrite(o, q, 1, VS(VI((unsigned char)(*s)[i])), p.second);
      }
      p.first += s->size();
    }
    return;
  }
  if (auto *a = v.getAsArray()) { for (auto &x : *a) writeSegs(o, x, at); return; }
  auto *ob = v.getAsObject();
  Field &fl = fieldOf(*ob->getString("f"));
  auto *alts = ob->getArray("t");
  Offs res;
  // group equal alternatives
  std::vector<std::pair<std::string, std::pair<const json::Value *, G>>> groups;
  for (unsigned c = 0; c < fl.n; c++) {
    const json::Value &av = (*alts)[c % alts->size()];
    std::string key; raw_string_ostream ks(key); ks << av; ks.flush();
    bool f = false;
    for (auto &g : groups) if (g.first == key) { g.second.second = B.Or(g.second.second, fl.code[c]); f = true; break; }
    if (!f) groups.push_back({key, {&av, fl.code[c]}});
  }
  for (auto &gr : groups) {
    Offs sub;
    for (auto &p : at) { G h = B.And(p.second, gr.second.second); if (h != GF) sub.push_back({p.first, h}); }
    if (sub.empty()) continue;
    writeSegs(o, *gr.second.first, sub);
    for (auto &p : sub) { bool f = false; for (auto &q : res) if (q.first == p.first) { q.second = B.Or(q.second, p.second); f = true; break; } if (!f) res.push_back(p); }
  }
  at.swap(res);
}
static VS numFrom(const json::Value &v) {
  if (auto i = v.getAsInteger()) return VS(VI((uint64_t)*i));
  auto *ob = v.getAsObject(); Field &fl = fieldOf(*ob->getString("f")); auto *alts = ob->getArray("t");
  Builder bl; for (unsigned c = 0; c < fl.n; c++) bl.add(VI((uint64_t)*(*alts)[c % alts->size()].getAsInteger()), fl.code[c]);
  return bl.done();
}

// guarded lines of a stream
struct LineFact { std::string text; G g; uint64_t seq; };
static std::vector<LineFact> linesOf(const std::vector<Event> &ev, const std::set<std::string> &starts, const std::string &skipPrefix, bool &over) {
  std::vector<LineFact> out; Texts part{{"", Care}};
  uint64_t seq = 0; over = false;
  // a line that begins with a block start is held together with the following lines up to an empty line
  auto flush = [&](std::string s, G g, bool isEof) {
    out.push_back({s, g, seq++}); (void)isEof;
  };
  for (auto &e : ev) {
    Texts nx; 
    if (e.t.size() == 1 && part.size() > 0) {}
    std::vector<LineFact> here;
    for (auto &p : part) {
      G rest = p.second;
      for (auto &t : e.t) {
        G h = B.And(rest, t.second);
        if (h == GF) continue;
        rest = B.Diff(rest, h);
        // what is held back has no line end (in a block: no empty line) yet
        size_t from = p.first.empty() ? 0 : p.first.size() - 1;
        std::string s;
        if (rest == GF) s.swap(p.first); else s = p.first;
        s += t.first;
        for (;;) {
          size_t nl;
          bool blk = false;
          for (auto &st : starts) if (s.compare(0, st.size(), st) == 0) blk = true;
          if (blk) { nl = s.find("\n\n", from); if (nl == std::string::npos) break; }
          else { nl = s.find('\n', from); if (nl == std::string::npos) break; }
          from = 0;
          std::string line = s.substr(0, nl);
          s = s.substr(nl + (blk ? 2 : 1));
          bool f = false;
          for (auto &x : here) if (x.text == line) { x.g = B.Or(x.g, h); f = true; break; }
          if (!f) here.push_back({line, h, 0});
        }
        addText(nx, std::move(s), h);
        if (rest == GF) break;
      }
      if (rest != GF) addText(nx, p.first, rest);
    }
    for (auto &x : here) flush(x.text, x.g, false);
    part.swap(nx);
    if (part.size() > 200000 || out.size() > 2000000) { over = true; return out; }
  }
  for (auto &p : part) if (!p.first.empty()) flush(p.first + "\x01", p.second, true); // no newline at the end
  return out;
}

static int drive(const char *bc, const char *spec, const char *outp) {
  auto t0 = std::chrono::steady_clock::now();
  SMDiagnostic err;
  M = parseIRFile(bc, err, Ctx);
  if (!M) { err.print("symex", errs()); return 2; }
  DL = &M->getDataLayout();
  auto mb = MemoryBuffer::getFile(spec);
  if (!mb) { errs() << "no spec\n"; return 2; }
  auto jv = json::parse((*mb)->getBuffer());
  if (!jv) { errs() << toString(jv.takeError()) << "\n"; return 2; }
  json::Object &J = *jv->getAsObject();
  for (auto &fv : *J.getArray("fields")) {
    auto *o = fv.getAsObject();
    Field fl; fl.name = o->getString("name")->str(); fl.n = *o->getInteger("n"); fl.lo = nVars; fl.bits = 0;
    while ((1u << fl.bits) < fl.n) fl.bits++;
    nVars += fl.bits;
    G any = GF;
    for (unsigned c = 0; c < fl.n; c++) {
      G g = GT;
      for (unsigned b = 0; b < fl.bits; b++) { G v = B.var(fl.lo + b); g = B.And(g, (c >> (fl.bits - 1 - b) & 1) ? v : B.Not(v)); }
      fl.code.push_back(g); any = B.Or(any, g);
    }
    Care = B.And(Care, any);
    fieldOrder.push_back(fl.name); fields[fl.name] = fl;
  }
  // extra constraint: list of conjunctions over field codes that are excluded
  if (auto *ex = J.getArray("exclude")) for (auto &c : *ex) {
    G g = GT;
    for (auto &kv : *c.getAsObject()) { Field &fl = fieldOf(kv.first); G a = GF; if (auto i = kv.second.getAsInteger()) a = fl.code[*i]; else for (auto &x : *kv.second.getAsArray()) a = B.Or(a, fl.code[*x.getAsInteger()]); g = B.And(g, a); }
    Care = B.Diff(Care, g);
  }
  Live = Care;
  if (auto b = J.getInteger("budget")) budget = *b;
  if (auto t = J.getNumber("time")) tlimit = *t;
  if (auto m = J.getNumber("mem")) memlimit = *m;
  initIntrinsics(); initGlobals();
  nrand = VS(VI(0)); nclock = VS(VI(0)); clockAt = VS(VI(~0ull >> 1)); clockBy = VS(VI(0));
  if (auto *r = J.getArray("rand")) for (auto &x : *r) randDraws.push_back(numFrom(x));
  if (auto *r = J.getArray("randfill")) for (auto &x : *r) fillRand.push_back(*x.getAsInteger());
  trigCount = trigAt = trigBy = VS(VI(0));
  if (auto *c = J.getObject("trigger")) { trigText = c->getString("text")->str(); trigAt = numFrom(*c->get("n")); trigBy = numFrom(*c->get("by")); }
  if (auto *c = J.getObject("clock")) { clockAt = numFrom(*c->get("at")); clockBy = numFrom(*c->get("by")); }
  if (auto *w = J.getObject("writefail")) { Field &fl = fieldOf(*w->getString("f")); for (auto &x : *w->getArray("codes")) wfail = B.Or(wfail, fl.code[*x.getAsInteger()]); }
  auto mkFile = [&](const std::string &nm, const json::Value &v) {
    VFile vf; vf.openable = GT; vf.obj = newObj(64, KConst, nm); objs[vf.obj]->alloc = GT; objs[vf.obj]->size = 64;
    if (v.kind() == json::Value::Null) { vf.openable = GF; vf.len = VS(VI(0)); vfiles[nm] = vf; return; }
    Offs at{{0, Care}}; Obj *o = objs[vf.obj];
    writeSegs(o, v, at);
    Builder bl; uint64_t mx = 0; for (auto &p : at) { bl.add(VI(p.first), p.second); mx = std::max(mx, p.first); }
    vf.len = bl.done(); o->size = mx; o->c.resize(std::max<uint64_t>(mx, 1));
    if (!o->size) o->size = 1;
    vfiles[nm] = vf;
  };
  if (auto *fs = J.getObject("files")) for (auto &kv : *fs) mkFile(kv.first.str(), kv.second);
  if (auto *si = J.get("stdin")) mkFile("<stdin>", *si); else mkFile("<stdin>", json::Value(""));
  if (auto *of = J.getObject("openfail")) for (auto &kv : *of) {
    auto *w = kv.second.getAsObject(); Field &fl = fieldOf(*w->getString("f"));
    for (auto &x : *w->getArray("codes")) vfiles[kv.first.str()].openable = B.Diff(vfiles[kv.first.str()].openable, fl.code[*x.getAsInteger()]);
  }
  // argv: entries may be missing under some inputs (then later ones move up)
  auto *av = J.getArray("argv");
  std::vector<std::pair<uint32_t, G>> elems;
  for (auto &a : *av) {
    G here = Care; const json::Value *v = &a;
    if (auto *o = a.getAsObject()) if (auto *w = o->getObject("when")) {
      Field &fl = fieldOf(*w->getString("f")); G g = GF; for (auto &x : *w->getArray("codes")) g = B.Or(g, fl.code[*x.getAsInteger()]);
      here = B.And(here, g); v = o->get("v");
    }
    uint32_t ob = newObj(64, KGlobal, "argv"); objs[ob]->alloc = GT;
    Offs at{{0, Care}}; writeSegs(objs[ob], *v, at);
    uint64_t mx = 0;
    for (auto &p : at) { while (objs[ob]->size <= p.first) objs[ob]->size *= 2; rawWrite(objs[ob], p.first, 1, VS(VI(0)), p.second); mx = std::max(mx, p.first + 1); }
    objs[ob]->size = mx; objs[ob]->c.resize(mx);
    elems.push_back({ob, here});
  }
  uint32_t avo = newObj(8 * (elems.size() + 1), KGlobal, "argv"); objs[avo]->alloc = GT;
  Offs pos{{0, Care}};
  for (auto &e : elems) {
    Offs nx;
    auto put = [&](uint64_t p, G g) { if (g == GF) return; for (auto &q : nx) if (q.first == p) { q.second = B.Or(q.second, g); return; } nx.push_back({p, g}); };
    for (auto &p : pos) {
      G h = B.And(p.second, e.second);
      if (h != GF) rawWrite(objs[avo], 8 * p.first, 8, VS(Val{0, e.first}), h);
      put(p.first + 1, h); put(p.first, B.Diff(p.second, e.second));
    }
    pos.swap(nx);
  }
  Builder ac; for (auto &p : pos) { rawWrite(objs[avo], 8 * p.first, 8, VS(VI(0)), p.second); ac.add(VI(p.first), p.second); }
  Function *S = M->getFunction("__vf_start");
  PFunc *P = getPF(S);
  Root = new Frame; Root->fn = P; Root->parent = nullptr; Root->callpos = -1; Root->depth = 0; Root->r.resize(P->nslots);
  Root->live = Live;
  Root->r[P->argslot[0]] = ac.done(); Root->r[P->argslot[1]] = VS(Val{0, avo});
  pushState(Root, 0, Live);
  runAll();
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();

  // export
  std::vector<G> roots{Care, Live};
  json::Object R;
  std::set<std::string> starts;
  if (auto *b = J.getArray("blocks")) for (auto &x : *b) starts.insert(x.getAsString()->str());
  json::Object so;
  std::map<std::string, std::vector<std::pair<std::string, G>>> lineTab;
  for (auto &s : streams) {
    bool over; auto ls = linesOf(s.second, starts, "", over);
    json::Array arr;
    for (auto &l : ls) {
      std::string t; for (char ch : l.text) if (ch != '\a' && ch != '\x01') t += ch;
      lineTab[s.first].push_back({t, l.g});
      arr.push_back(json::Array{json::fixUTF8(l.text), (int64_t)l.g}); roots.push_back(l.g); }
    G opened = GF; for (auto &e : s.second) opened = B.Or(opened, e.g);
    roots.push_back(opened);
    so[s.first] = json::Object{{"lines", std::move(arr)}, {"opened", (int64_t)opened}, {"over", over}};
  }
  R["streams"] = std::move(so);
  // guards combined from others, on request: ["or"|"and"|"not", ...], ["text"|"prefix"|"line"|"linestart", stream, t], ["exit", code], ["care"], ["live"], ["ub"]
  if (auto *dv = J.getArray("derived")) {
    json::Object dq;
    std::function<G(const json::Value &)> evx = [&](const json::Value &v) -> G {
      auto &a = *v.getAsArray(); std::string op = a[0].getAsString()->str();
      if (op == "care") return Care;
      if (op == "live") return Live;
      if (op == "ub") { G g = GF; for (auto &x : viols) g = B.Or(g, x.g); return g; }
      if (op == "not") return B.Not(evx(a[1]));
      if (op == "or") { G g = GF; for (size_t i = 1; i < a.size(); i++) g = B.Or(g, evx(a[i])); return g; }
      if (op == "and") { G g = GT; for (size_t i = 1; i < a.size(); i++) g = B.And(g, evx(a[i])); return g; }
      if (op == "exit") { G g = GF; for (auto &e : exits) if (e.code == *a[1].getAsInteger()) g = B.Or(g, e.g); return g; }
      if (op == "text" || op == "prefix" || op == "line" || op == "linestart") {
        std::string st = a[1].getAsString()->str(), want = a[2].getAsString()->str(); G g = GF;
        auto it = lineTab.find(st); if (it == lineTab.end()) return GF;
        auto within = [&](const std::string &t) {  // some line of the (possibly many-line) text
          for (size_t at = 0; at <= t.size();) {
            size_t e = t.find('\n', at); if (e == std::string::npos) e = t.size();
            if (op == "line" ? t.compare(at, e - at, want) == 0 : e - at >= want.size() && t.compare(at, want.size(), want) == 0) return true;
            at = e + 1;
          }
          return false;
        };
        for (auto &l : it->second) if (op == "text" ? l.first == want : op == "prefix" ? l.first.compare(0, want.size(), want) == 0 : within(l.first)) g = B.Or(g, l.second);
        return g;
      }
      errs() << "bad derived expression\n"; exit(2);
    };
    for (auto &x : *dv) { auto &a = *x.getAsArray(); G g = evx(a[1]); dq[*a[0].getAsString()] = (int64_t)g; roots.push_back(g); }
    R["derived"] = std::move(dq);
  }
  json::Array va;
  for (auto &v : viols) { va.push_back(json::Object{{"kind", v.kind}, {"loc", v.loc}, {"stack", json::fixUTF8(v.stack)}, {"g", (int64_t)v.g}}); roots.push_back(v.g); }
  R["violations"] = std::move(va);
  json::Array ea;
  { std::map<std::pair<int, std::string>, G> m; for (auto &e : exits) { auto k = std::make_pair(e.code, e.how); auto it = m.find(k); if (it == m.end()) m[k] = e.g; else it->second = B.Or(it->second, e.g); }
    for (auto &x : m) { ea.push_back(json::Object{{"code", x.first.first}, {"how", x.first.second}, {"g", (int64_t)x.second}}); roots.push_back(x.second); } }
  R["exits"] = std::move(ea);
  R["care"] = (int64_t)Care; R["live"] = (int64_t)Live; R["stopped"] = stopped ? stopWhy : "";
  Spin = B.And(Spin, Live); if (Spin == GF) Spin = Live;
  R["spin"] = (int64_t)Spin; roots.push_back(Spin);
  json::Array fa;
  for (auto &n : fieldOrder) { Field &fl = fields[n]; fa.push_back(json::Object{{"name", n}, {"n", fl.n}, {"lo", fl.lo}, {"bits", fl.bits}}); }
  R["fields"] = std::move(fa); R["nvars"] = nVars;
  // node table
  std::map<uint32_t, uint32_t> seen; json::Array nodes;
  std::vector<uint32_t> ord;
  std::function<void(uint32_t)> go = [&](uint32_t i) {
    if (i == 0 || seen.count(i)) return;
    seen[i] = 0; go(B.n[i].hi >> 1); go(B.n[i].lo >> 1); ord.push_back(i);
  };
  for (G g : roots) go(g >> 1);
  for (uint32_t i : ord) nodes.push_back(json::Array{(int64_t)i, (int64_t)B.n[i].var, (int64_t)B.n[i].hi, (int64_t)B.n[i].lo});
  R["nodes"] = std::move(nodes);
  json::Array fns; uint64_t ent = 0;
  for (auto &p : pfs) if (p.second->entered || p.first == S) { fns.push_back(p.first->getName()); ent++; }
  uint64_t insts = 0, cov = 0; for (auto &p : pfs) for (auto &i : p.second->in) { insts++; if (i.hits) cov++; }
  R["functions"] = std::move(fns);
  std::set<std::string> lines;
  for (auto &p : pfs) for (auto &i : p.second->in) if (i.hits && i.I->getDebugLoc()) { std::string l = locOf(i.I); if (l.find(".cc:") != std::string::npos || l.find(".h:") != std::string::npos) lines.insert(l); }
  json::Array la; for (auto &l : lines) if (l[0] != '/') la.push_back(l);
  R["srclines"] = std::move(la);
  R["stats"] = json::Object{{"exec", (int64_t)nExec}, {"blocks", (int64_t)nBlocks}, {"calls", (int64_t)nCalls}, {"bdd_nodes", (int64_t)B.n.size()}, {"bdd_ops", (int64_t)B.ops}, {"objects", (int64_t)objs.size()}, {"reused", (int64_t)nReuse}, {"time", el}, {"maxrand", (int64_t)maxRand}, {"insts", (int64_t)insts}, {"covered_insts", (int64_t)cov}, {"vars", (int64_t)nVars}};
  std::error_code ec; raw_fd_ostream os(outp, ec);
  os << json::Value(std::move(R)) << "\n";
  if (getenv("VF_PROF")) {
    std::vector<std::pair<uint64_t, std::string>> pr;
    for (auto &p : pfs) { uint64_t s = 0; for (auto &i : p.second->in) s += i.hits; pr.push_back({s, p.first->getName().str()}); }
    std::sort(pr.rbegin(), pr.rend()); for (size_t i = 0; i < pr.size() && i < 25; i++) errs() << pr[i].first << " " << pr[i].second << "\n";
  }
  return 0;
}
