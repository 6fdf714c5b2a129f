// C09: no TrueType file, however damaged, does more than get refused.
#include "fontmodels.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static Font F;
static std::string glyph(int contours, const std::string &payload) { std::string s; p16(s, contours); for(int i = 0; i < 4; i++) p16(s, 10 * i); s += payload; while(s.size() % 4) s += '\0'; return s; }
static std::string rec(unsigned flags, unsigned gid) { std::string s; p16(s, flags); p16(s, gid); s += "\1\2"; if(flags & 1) s += "\3\4"; s += std::string(flags & 8 ? 2 : flags & 0x40 ? 4 : flags & 0x80 ? 8 : 0, '\x40'); return s; }
static void base() {
    F.gl.resize(4);
    F.gl[0].data = glyph(1, "nd");
    F.gl[1].data = glyph(1, "aa");
    F.gl[2].data = glyph(-1, rec(0x22, 1) + rec(2, 3));
    F.gl[3].data = glyph(1, "dd");
    F.cmap = {{'A', 1}, {'B', 2}, {'C', 3}};
}
static void put(const std::string &file, int sub = 0) { env::put("/m/f.ttf", file); known_fonts.push_back({"/m/f.ttf", sub, &F}); }
// Load the font, use it, write the document: calls may fail, but a failure leaves a working document.
static void exercise(int sub, const char *text, const std::vector<uint32_t> &raw = {}, bool structure = true) {
    CapyPDF_FontProperties *p = nullptr;
    CapyPDF_FontId id;
    if(sub) { OK(capy_font_properties_new, &p); OK(capy_font_properties_set_subfont, p, sub); }
    int rc = capy_generator_load_font(g, "/m/f.ttf", p, &id);
    if(p) OK(capy_font_properties_destroy, p);
    DC *dc = d->page();
    int shown = 0;
    if(rc == 0) {
        for(const char *c = text; *c; c++) if(capy_dc_render_text(dc, c, 1, id, 12, 10, 20) == 0) shown++;
        for(uint32_t r : raw) {
            CapyPDF_TextSequence *q; CapyPDF_Text *t;
            OK(capy_text_sequence_new, &q);
            if(capy_text_sequence_append_raw_glyph(q, r, 'Z') != 0) C(r == 0, "glyph-zero-refused");
            else {
                OK(capy_dc_text_new, dc, &t);
                OK(capy_text_cmd_Tf, t, id, 10);
                OK(capy_text_cmd_TJ, t, q);
                if(capy_dc_render_text_obj(dc, t) == 0) shown++;
                OK(capy_text_destroy, t);
            }
            OK(capy_text_sequence_destroy, q);
        }
        double w;
        capy_generator_text_width(g, "AB", 2, id, 10, &w);
    }
    d->add(dc);
    d->finish();
    content::parse(d->contents(d->pg(0)));
    O fd = d->out.get(d->out.get(d->pg(0), "Resources"), "Font");
    C(!shown || (fd && fd->k == pdf::Dict && fd->a.size() == 1), "font-resource");
    if(shown) {
        CidFont cf(*d);
        cf.read(d->out.deref(&fd->a[0]));
        if(structure) {
            Sub s;
            s.parse(cf.program);
            C(cf.W.size() == s.n && s.n >= 2, "font-widths-count");
            // no component points outside the font
            for(auto &gl : s.gl) if(!gl.empty() && (g8(gl, 0) & 0x80)) {
                unsigned fl = 0x20;
                for(size_t o = 10; fl & 0x20 && o + 4 <= gl.size(); o += 4 + (fl & 1 ? 4 : 2) + (fl & 8 ? 2 : fl & 0x40 ? 4 : fl & 0x80 ? 8 : 0)) {
                    fl = (unsigned)capysym_pick(g16(gl, o) & 0xe9);
                    C(g16(gl, o + 2) < s.n, "subset-component");
                }
            }
        }
        capysym_reach("used");
    } else capysym_reach("refused");
    OK(capy_generator_destroy, g);
    C(live_faces == 0 && live_ft == 0, "freetype-released");
}
// The location table last, so that reading past its end is noticed soon.
static std::string file() {
    auto t = tables_of(F);
    for(size_t i = 0; i + 1 < t.size(); i++) if(t[i].tag == "loca") std::swap(t[i], t[i + 1]);
    return sfnt(t);
}
// The number of glyphs: memory is set aside for so many, so it has to be a concrete number.  All small ones, and some large ones.
static void glyph_count(std::string &f, size_t at) {
    static const uint32_t BIG[8] = {24, 63, 255, 256, 32767, 32768, 65534, 65535};
    uint32_t x = g16(f, at);
    if(x < 24) x = (uint32_t)capysym_pick(x);
    else { uint32_t b = BIG[capysym_choice("glyphs", 8)]; capysym_assume(x == b); x = b; }
    f[at] = (char)(x >> 8); f[at + 1] = (char)x;
}
static size_t entry(const std::string &f, const char *t) { for(unsigned i = 0; i < g16(f, 4); i++) if(f.substr(12 + 16 * i, 4) == t) return 12 + 16 * i; return 0; }
#if PART == 0
// any four bytes of the file replaced by any others
static void body() {
    base();
    F.loca = LOCA; F.maxp05 = true;
    std::string f = file(), v;
    const std::string orig = f;
    size_t n = (f.size() + 1) / 2, pos = 2 * (size_t)capysym_choice("position", n);
#ifdef POS
    if(!(pos >= POS && pos < POS2)) return;
#endif
    // flags and numbers of components: the harness for composite glyphs
    size_t g2 = g32(orig, entry(orig, "glyf") + 8) + F.gl[0].data.size() + F.gl[1].data.size();
    if(pos + 4 > g2 + 10 && pos < g2 + 14) capysym_end();
    if(pos + 4 > g2 + 16 && pos < g2 + 20) capysym_end();
    symbytes(v, 4, "bytes");
    for(size_t i = 0; i < 4 && pos + i < f.size(); i++) f[pos + i] = v[i];
    // One path for each value of the fields that say where things are, if there is such a place;
    // all other values are one case.
    auto split = [&](size_t at, unsigned w, uint32_t limit) {
        if(pos + 4 <= at || at + w <= pos) return;
        uint32_t x = w == 2 ? g16(f, at) : g32(f, at);
        if(x >= limit) return;
        x = (uint32_t)capysym_pick(x);
        for(unsigned i = 0; i < w; i++) f[at + i] = (char)(x >> 8 * (w - 1 - i));
    };
    size_t loca = g32(orig, entry(orig, "loca") + 8), w = LOCA ? 4 : 2;
    for(size_t i = 0; i < 5; i++) split(loca + i * w, w, LOCA ? 250 : 125);
    auto set = [&](size_t at, uint32_t x) { for(unsigned i = 0; i < 4; i++) f[at + i] = (char)(x >> 8 * (3 - i)); };
    auto hit = [&](size_t at) { return pos + 4 > at && at + 4 > pos; };
    for(unsigned i = 0; i < g16(orig, 4); i++) {
        size_t at = 12 + 16 * i;
        uint32_t off = g32(orig, at + 8), len = g32(orig, at + 12), room = (uint32_t)orig.size() - off;
        // tags: those of the other tables and unknown ones
        if(hit(at)) { static const char *T[10] = {"cmap", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "CFF ", "cvt ", "zzzz"}; uint32_t t; memcpy(&t, T[capysym_choice("tag", 10)], 4); t = __builtin_bswap32(t); capysym_assume(g32(f, at) == t); set(at, t); }
        // positions and lengths that lie in the file: the smallest, those near the right one and near the end; and all others
        uint32_t n = (uint32_t)orig.size();
        if(hit(at + 8) && g32(f, at + 8) <= n) { const uint32_t A[10] = {0, 4, off - 2, off - 1, off + 1, off + 4, n - len - 1, n - 10, n - 1, n}; uint32_t x = A[capysym_choice("offset", 10)]; capysym_assume(g32(f, at + 8) == x); set(at + 8, x); room = n - x; }
        if(hit(at + 12) && g32(f, at + 12) <= room) { const uint32_t L[8] = {0, 1, 2, 5, len - 1, len + 1, room - 1, room}; uint32_t x = L[capysym_choice("length", 8)]; capysym_assume(g32(f, at + 12) == x); set(at + 12, x); }
    }
    size_t mx = g32(orig, entry(orig, "maxp") + 8) + 4;
    if(pos + 4 > mx && mx + 2 > pos) glyph_count(f, mx);
    put(f);
    exercise(0, "B", {}, false);
}
#elif PART == 1
// files cut short, and collections with any counts and offsets
static void body() {
    base();
    int coll = capysym_choice("collection", 2);
    std::string f;
    if(!coll) {
        f = ttf(F);
        f.resize(1 + (size_t)capysym_choice("length", f.size() - 1));
        put(f);
        exercise(0, "AB");
        return;
    }
    std::string c = "ttcf", h, body;
    symbytes(h, 8, "header");
    p32(c, 0x10000);
    int what = capysym_choice("what", 4);
    if(what == 0) { c += h.substr(0, 4); p32(c, 16); }                       // number of fonts
    if(what == 1) { p32(c, 1); c += h.substr(4, 4); }                        // offset
    if(what == 2) { p32(c, 2); p32(c, 0xfffffff0); c += h.substr(4, 4); }
    if(what == 3) { p32(c, 1 + (int)capysym_choice("fonts", 2)); p32(c, 16); }
    c += sfnt(tables_of(F), c.size());
    if(what == 3) c.resize((size_t)capysym_choice("length", 60));
    int sub = what == 2 ? 1 : capysym_choice("subfont", 2);
    put(c, sub);
    exercise(sub, "AB");
}
#elif PART == 2
// the counts that say how long the other tables are, any values together
static void body() {
    base();
    F.loca = capysym_choice("loca", 2);
    std::string f = file(), v;
    symbytes(v, 6, "counts");
    size_t m = g32(f, entry(f, "maxp") + 8), h = g32(f, entry(f, "hhea") + 8), e = g32(f, entry(f, "head") + 8);
    f[m + 4] = v[0]; f[m + 5] = v[1]; f[h + 34] = v[2]; f[h + 35] = v[3];
    auto split = [&](size_t at, uint32_t limit) { uint32_t x = g16(f, at); if(x < limit) { x = (uint32_t)capysym_pick(x); f[at] = (char)(x >> 8); f[at + 1] = (char)x; } };
    glyph_count(f, m + 4); split(h + 34, 8);
    if(capysym_choice("what", 2)) f[e + 50] = v[4], f[e + 51] = v[5];
    put(f);
    exercise(0, "AB");
}
#elif PART == 3
// composite glyphs that refer to anything, in any shape
static void body() {
    base();
    std::string v;
    symbytes(v, 6, "composite");
    int what = capysym_choice("what", 5);
    // the glyph numbers: each glyph there is, or any other
    auto split = [&](size_t at) { uint32_t x = g16(v, at); if(x < 4) { v[at] = 0; v[at + 1] = (char)capysym_pick(x); } };
    if(what != 2) split(2);
    if(what == 0) split(4);
    if(what == 0) F.gl[2].data = glyph(-1, v.substr(0, 2) + v.substr(2, 2) + "abcdefghijklmn" + v.substr(4, 2));          // flags, glyph
    if(what == 1) F.gl[2].data = glyph(-1, rec(0x22, 1) + v.substr(0, 4) + "abcd");                                      // second component
    if(what == 2) { std::string s; s = v.substr(0, 2) + "xxxxxxxxyyyyzzzzpp"; s.resize(1 + (int)capysym_choice("size", 20)); F.gl[2].data = s; }   // short glyphs
    if(what == 3) {                                                                                                      // any references between the glyphs
        unsigned r[4];
        for(int i = 0; i < 4; i++) { r[i] = i == 1 ? 4 : (unsigned)capysym_choice("refers", 5); if(r[i] < 4) F.gl[i].data = glyph(-1, rec(i & 1 ? 0x21 : 0x2a, r[i]) + rec(2, (r[i] + i) & 3)); }
    }
    if(what == 4) {                                                                                                      // .notdef
        int n = capysym_choice("notdef", 3);
        F.gl[0].data = n == 0 ? glyph(-1, rec(0x22, 1) + v.substr(0, 4) + "xy") : n == 1 ? v.substr(0, 1) : v.substr(0, 2) + "12345678";
    }
    F.loca = 1;
    put(ttf(F));
    exercise(0, what == 3 ? "BC" : "B");
}
#elif PART == 4
// glyphs by number
static void body() {
    base();
    put(ttf(F));
    std::vector<uint32_t> raw;
    for(int i = 0; i < 2; i++) { uint32_t x = (uint32_t)capysym_range("glyph", 0, 0xffffffff); raw.push_back(x < 4 ? (uint32_t)capysym_pick(x) : x); }
    exercise(0, capysym_choice("text", 2) ? "A" : "", raw);
}
#endif
extern "C" void harness() {
    D doc;
    d = &doc;
    doc.open();
    g = doc.g;
    body();
    capysym_end();
}
