// CFF fonts made and read back entry by entry.
#pragma once
#include "fontmodels.hpp"
namespace cff {
enum Op { Notice = 1, FullName, FamilyName, Weight, FontBBox, BlueValues, StdHW = 10, Charset = 15, Encoding, CharStrings, Private, Subrs, DefaultWidthX, NominalWidthX,
          FontMatrix = 0xc07, BlueScale = 0xc09, ForceBold = 0xc0e, ROS = 0xc1e, CIDFontVersion, CIDCount = 0xc22, FDArray = 0xc24, FDSelect, FontName };
// numbers, in the shortest form or the form asked for (28 or 29)
inline std::string num(int v, int form = 0) {
    std::string s;
    if(form == 29 || (!form && (v < -32768 || v > 32767))) { p8(s, 29); p32(s, (uint32_t)v); return s; }
    if(form == 28 || v < -1131 || v > 1131) { p8(s, 28); p16(s, (unsigned)v & 0xffff); return s; }
    if(v >= -107 && v <= 107) p8(s, v + 139);
    else if(v > 0) { p8(s, 247 + (v - 108) / 256); p8(s, (v - 108) % 256); }
    else { p8(s, 251 + (-v - 108) / 256); p8(s, (-v - 108) % 256); }
    return s;
}
inline std::string op(unsigned o) { std::string s; if(o > 255) p8(s, 12); p8(s, o & 255); return s; }
inline std::string entry(unsigned o, std::initializer_list<int> v, int form = 0) { std::string s; for(int x : v) s += num(x, form); return s + op(o); }
inline std::string index(const std::vector<std::string> &v, int offsize) {
    std::string s;
    p16(s, v.size());
    if(v.empty()) return s;
    p8(s, offsize);
    uint32_t at = 1;
    auto put = [&] { for(int i = offsize - 1; i >= 0; i--) p8(s, at >> 8 * i & 255); };
    put();
    for(auto &x : v) { at += x.size(); put(); }
    for(auto &x : v) s += x;
    return s;
}
struct FD { std::string entries, priv; bool haspriv = true, hassubrs = false, subrs_first = false; std::vector<std::string> subrs; };
struct Src {
    bool cid = false;
    int offsize = 1, selfmt = 3, csfmt = 0;
    std::string top;                                    // entries of the top dictionary that are not offsets
    std::vector<std::string> names{"TestCFF"}, strings, gsubrs, chars;
    std::vector<FD> fds;                                // one if not cid
    std::vector<unsigned> sel;                          // dictionary of each glyph
    std::vector<size_t> mark;                           // where the pieces start
    std::string build() {
        std::vector<int> off(5 + fds.size() * 2, 0), o2;
        std::string s;
        for(int pass = 0; pass < 2; pass++) {
            s.clear(); mark.clear(); o2.clear();
            std::string t;
            if(cid) t += entry(ROS, {391, 392, 0});
            t += top;
            t += entry(Charset, {off[0]}, 29) + entry(CharStrings, {off[1]}, 29);
            if(cid) t += entry(FDArray, {off[2]}, 29) + entry(FDSelect, {off[3]}, 29);
            else if(fds[0].haspriv) t += entry(Private, {(int)privbytes(0).size(), off[5]}, 29);
            p8(s, 1); p8(s, 0); p8(s, 4); p8(s, offsize);
            auto at = [&] { mark.push_back(s.size()); };
            at(); s += index(names, offsize); at(); s += index({t}, offsize); at(); s += index(strings, offsize); at(); s += index(gsubrs, offsize);
            at(); o2.push_back(s.size());
            if(csfmt == 0) { p8(s, 0); for(size_t i = 1; i < chars.size(); i++) p16(s, i); }
            else { p8(s, csfmt); p16(s, 1); if(csfmt == 1) p8(s, chars.size() - 2); else p16(s, chars.size() - 2); }
            at(); o2.push_back(s.size()); s += index(chars, offsize);
            std::vector<std::string> fd;
            for(size_t i = 0; i < fds.size(); i++) fd.push_back(fds[i].entries + (fds[i].haspriv ? entry(Private, {(int)privbytes(i).size(), off[5 + i]}, 29) : std::string()));
            at(); o2.push_back(s.size()); if(cid) s += index(fd, offsize);
            at(); o2.push_back(s.size());
            if(cid) {
                if(selfmt == 0) { p8(s, 0); for(unsigned x : sel) p8(s, x); }
                else {
                    std::string r; unsigned n = 0;
                    for(size_t i = 0; i < sel.size(); i++) if(!i || sel[i] != sel[i - 1]) { p16(r, i); p8(r, sel[i]); n++; }
                    p8(s, 3); p16(s, n); s += r; p16(s, sel.size());
                }
            }
            o2.push_back(0);
            for(size_t i = 0; i < fds.size(); i++) { at(); o2.push_back(s.size()); s += privbytes(i); if(fds[i].hassubrs) s += index(fds[i].subrs, offsize); }
            for(size_t i = 0; i < fds.size(); i++) o2.push_back(0);
            off = o2;
        }
        return s;
    }
    std::string privbytes(size_t i) { FD &f = fds[i]; if(!f.hassubrs) return f.priv; size_t n = f.priv.size() + 4; std::string e = entry(Subrs, {(int)n}, 28); return f.subrs_first ? e + f.priv : f.priv + e; }
};
// ---------------------------------------------------------------- reading
struct Num { bool real = false; int v = 0; std::string raw; };
typedef std::vector<std::pair<unsigned, std::vector<Num>>> Dict;
inline std::vector<std::string> read_index(const std::string &s, size_t &o) {
    C(o + 2 <= s.size(), "cff-index");
    unsigned n = g16(s, o);
    o += 2;
    std::vector<std::string> r;
    if(!n) return r;
    C(o < s.size(), "cff-index");
    unsigned w = g8(s, o++);
    C(w >= 1 && w <= 4 && o + (n + 1) * w <= s.size(), "cff-index");
    auto get = [&](unsigned i) { uint32_t v = 0; for(unsigned k = 0; k < w; k++) v = v << 8 | g8(s, o + i * w + k); return (size_t)v; };
    C(get(0) == 1, "cff-index-first");
    size_t data = o + (n + 1) * w - 1;
    for(unsigned i = 0; i < n; i++) {
        size_t a = get(i), b = get(i + 1);
        C(a <= b && data + b <= s.size(), "cff-index-offsets");
        r.push_back(s.substr(data + a, b - a));
    }
    o = data + get(n);
    return r;
}
inline Dict read_dict(const std::string &s) {
    Dict d;
    std::vector<Num> a;
    for(size_t o = 0; o < s.size();) {
        unsigned b = (unsigned)capysym_pick(g8(s, o++));
        if(b <= 21) {
            if(b == 12) { C(o < s.size(), "cff-dict"); b = 12 << 8 | (unsigned)capysym_pick(g8(s, o++)); }
            for(auto &e : d) C(e.first != b, "cff-dict-duplicate");
            C(a.size() <= 48, "cff-dict-operands");
            d.push_back({b, a});
            a.clear();
            continue;
        }
        Num n;
        size_t st = o;
        if(b == 28) { C(o + 2 <= s.size(), "cff-dict"); n.v = (short)g16(s, o); o += 2; }
        else if(b == 29) { C(o + 4 <= s.size(), "cff-dict"); n.v = (int)g32(s, o); o += 4; }
        else if(b == 30) { n.real = true; for(;;) { C(o < s.size(), "cff-dict"); unsigned x = g8(s, o++); if((x & 15) == 15 || x >> 4 == 15) break; } n.raw = s.substr(st, o - st); }
        else if(b >= 32 && b <= 246) n.v = (int)b - 139;
        else if(b >= 247 && b <= 250) { C(o < s.size(), "cff-dict"); n.v = ((int)b - 247) * 256 + (int)g8(s, o++) + 108; }
        else if(b >= 251 && b <= 254) { C(o < s.size(), "cff-dict"); n.v = -((int)b - 251) * 256 - (int)g8(s, o++) - 108; }
        else C(false, "cff-dict");
        a.push_back(n);
    }
    C(a.empty(), "cff-dict");
    return d;
}
inline const std::vector<Num> *find(const Dict &d, unsigned o) { for(auto &e : d) if(e.first == o) return &e.second; return nullptr; }
inline bool same(const std::vector<Num> &a, const std::vector<Num> &b) {
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); i++) { if(a[i].real != b[i].real) return false; if(a[i].real ? !eqs(a[i].raw, b[i].raw) : a[i].v != b[i].v) return false; }
    return true;
}
// A CFF font as a reader sees it
struct Font1 {
    bool cid = false;
    Dict top;
    std::vector<std::string> names, strings, gsubrs, chars;
    struct F { Dict d, priv; bool haspriv = false, hassubrs = false; std::vector<std::string> subrs; };
    std::vector<F> fds;
    std::vector<unsigned> sel, charset;
    static int one(const Dict &d, unsigned o) { auto *v = find(d, o); C(v && v->size() == 1 && !(*v)[0].real, "cff-offset"); return (int)capysym_pick((*v)[0].v); }
    void priv(const std::string &s, const Dict &d, F &f) {
        auto *p = find(d, Private);
        if(!p) return;
        C(p->size() == 2 && !(*p)[0].real && !(*p)[1].real, "cff-private");
        size_t n = (size_t)capysym_pick((*p)[0].v), o = (size_t)capysym_pick((*p)[1].v);
        C(o <= s.size() && n <= s.size() - o, "cff-private-range");
        f.haspriv = true;
        f.priv = read_dict(s.substr(o, n));
        if(find(f.priv, Subrs)) { f.hassubrs = true; size_t q = o + (size_t)one(f.priv, Subrs); f.subrs = read_index(s, q); }
    }
    void parse(const std::string &s) {
        C(s.size() > 4 && g8(s, 0) == 1 && g8(s, 1) == 0 && g8(s, 2) == 4 && g8(s, 3) >= 1 && g8(s, 3) <= 4, "cff-header");
        size_t o = 4;
        names = read_index(s, o);
        auto t = read_index(s, o);
        strings = read_index(s, o);
        gsubrs = read_index(s, o);
        C(names.size() == 1 && t.size() == 1, "cff-one-font");
        top = read_dict(t[0]);
        o = (size_t)one(top, CharStrings);
        chars = read_index(s, o);
        C(!chars.empty(), "cff-charstrings");
        cid = find(top, ROS);
        C(!cid || top[0].first == ROS, "cff-ros-first");
        o = (size_t)one(top, Charset);
        unsigned f = g8(s, o++);
        C(f <= 2, "cff-charset");
        charset.push_back(0);
        if(f == 0) for(size_t i = 1; i < chars.size(); i++, o += 2) { C(o + 2 <= s.size(), "cff-charset"); charset.push_back(g16(s, o)); }
        else while(charset.size() < chars.size()) {
            C(o + 3 <= s.size(), "cff-charset");
            unsigned a = g16(s, o), n = f == 1 ? g8(s, o + 2) : g16(s, o + 2);
            o += f == 1 ? 3 : 4;
            for(unsigned i = 0; i <= n && charset.size() < chars.size(); i++) charset.push_back(a + i);
        }
        if(!cid) { fds.resize(1); priv(s, top, fds[0]); sel.assign(chars.size(), 0); return; }
        o = (size_t)one(top, FDArray);
        for(auto &e : read_index(s, o)) { F x; x.d = read_dict(e); priv(s, x.d, x); fds.push_back(x); }
        o = (size_t)one(top, FDSelect);
        C(o < s.size(), "cff-fdselect");
        f = g8(s, o++);
        if(f == 0) { C(o + chars.size() <= s.size(), "cff-fdselect"); for(size_t i = 0; i < chars.size(); i++) sel.push_back(g8(s, o + i)); }
        else {
            C(f == 3 && o + 4 <= s.size(), "cff-fdselect");
            unsigned n = g16(s, o), last = 0;
            C(n >= 1 && o + 2 + 3 * n + 2 <= s.size() && g16(s, o + 2) == 0, "cff-fdselect");
            for(unsigned i = 0; i < n; i++) {
                unsigned a = g16(s, o + 2 + 3 * i), b = g16(s, o + 5 + 3 * i);
                C(a >= last && a < b, "cff-fdselect-order");
                last = a;
                for(unsigned k = a; k < b; k++) sel.push_back(g8(s, o + 4 + 3 * i));
            }
            C(g16(s, o + 2 + 3 * n) == chars.size(), "cff-fdselect-sentinel");
        }
        C(sel.size() == chars.size(), "cff-fdselect");
        for(unsigned x : sel) C(x < fds.size(), "cff-fdselect-range");
    }
    // 0-390 are standard strings
    std::string sid(const Num &n) const { C(!n.real && n.v >= 0 && n.v < 391 + (int)strings.size(), "cff-string"); return n.v < 391 ? "std" + std::to_string(n.v) : strings[n.v - 391]; }
};
}
