// C11: an embedded TrueType subset is a well formed font that holds exactly the outlines, metrics and programs of the glyphs used.
#include "fontmodels.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static Font F;
enum { NOTDEF, A_, B_, ADIER, DIER, ANEST, MACRON, SPACE, NGL };
static const uint32_t CP[5] = {0x41, 0x42, 0xc4, 0x1de, 0x20};
static const unsigned GID[5] = {A_, B_, ADIER, ANEST, SPACE};
static std::string simple(int contours, const std::string &payload) { std::string s; p16(s, contours); for(int i = 0; i < 4; i++) p16(s, 10 * i); return s + payload; }
// component record with the given flags; arguments and scale bytes are filled with a pattern
static void comp(std::string &s, unsigned flags, unsigned gid, const std::string &tail) {
    size_t n = (flags & 1 ? 4 : 2) + (flags & 8 ? 2 : flags & 0x40 ? 4 : flags & 0x80 ? 8 : 0);
    p16(s, flags); p16(s, gid); s += tail.substr(0, n);
}
static void glyphs() {
    std::string sy, t;
    symbytes(sy, 8, "outline");
    F.gl.resize(NGL);
    F.gl[NOTDEF].data = simple(2, "nd");
    F.gl[A_].data = simple(1, sy.substr(0, 4) + "aa");
    F.gl[B_].data = simple(1, "bbbb");
    F.gl[DIER].data = simple(2, sy.substr(4, 4));
    F.gl[MACRON].data = simple(1, "mm");
    F.gl[SPACE].data = "";
    symbytes(t, 12, "arguments");
    static const unsigned SC[4] = {0, 8, 0x40, 0x80};
    unsigned w = 0, s1 = 0, s2 = 0, instr = 0;
#if PART == 1
    w = capysym_choice("words", 4); s1 = SC[capysym_choice("scale1", 4)]; s2 = SC[capysym_choice("scale2", 4)]; instr = capysym_choice("instructions", 2);
#endif
    std::string c;
    c = simple(-1, ""); comp(c, 0x20 | 0x2 | (w & 1) | s1, A_, t); comp(c, (w >> 1) | 0x2 | s2 | (instr ? 0x100 : 0), DIER, t);
    if(instr) c += std::string("\0\2zz", 4);
    F.gl[ADIER].data = c;
    c = simple(-1, ""); comp(c, 0x20 | 0x2 | (w >> 1) | s2, ADIER, t); comp(c, (w & 1) | 0x2 | s1, MACRON, t);
    F.gl[ANEST].data = c;
    for(auto &x : F.gl) while(x.data.size() % 4) x.data += '\0';
    std::string m;
    symbytes(m, 8, "metrics");
    for(unsigned i = 0; i < NGL; i++) { F.gl[i].adv = 300 + 100 * i; p16(F.gl[i].hm, F.gl[i].adv); p16(F.gl[i].hm, 0x1000 + i); }
    for(int k = 0; k < 2; k++) F.gl[k ? DIER : A_].hm = m.substr(4 * k, 4);
    for(int i = 0; i < 5; i++) F.cmap.push_back({CP[i], GID[i]});
}
static CapyPDF_FontId load(const char *path, int sub = 0) {
    CapyPDF_FontProperties *p = nullptr;
    CapyPDF_FontId id;
    if(sub) { OK(capy_font_properties_new, &p); OK(capy_font_properties_set_subfont, p, sub); }
    int rc = capy_generator_load_font(g, path, p, &id);
    
    C(rc == 0, "accepted:capy_generator_load_font");
    if(p) OK(capy_font_properties_destroy, p);
    return id;
}
static std::string utf8(uint32_t c) {
    std::string s;
    if(c < 0x80) s += (char)c;
    else if(c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
static Sub S;
// slot of the subset holds that glyph of the source (and so do the components, wherever they were put)
static void same_glyph(unsigned slot, unsigned gid, int depth = 0) {
    C(slot < S.gl.size() && depth < 4, "glyph-slot");
    std::string want = F.gl[gid].data, got = S.gl[slot];
    if(F.variable) return;
    // padding after a glyph is no part of it
    C(got.size() >= want.size() && got.size() - want.size() < 4, "glyph-size");
    got.resize(want.size());
    if(!want.empty() && (g8(want, 0) & 0x80)) {
        auto cs = components(want, "harness:components");
        for(auto &c : cs) {
            unsigned to = (unsigned)capysym_pick(g16(got, c.at + 2));
            same_glyph(to, c.gid, depth + 1);
            got[c.at + 2] = want[c.at + 2]; got[c.at + 3] = want[c.at + 3];
        }
    }
    C(eqs(got, want), "glyph-outline");
    // metrics
    unsigned nhm = F.nhm ? F.nhm : F.gl.size();
    std::string hm = F.gl[gid].hm, hmtx = S.tab("hmtx");
    if(gid >= nhm) hm = F.gl[nhm - 1].hm.substr(0, 2) + F.gl[gid].hm.substr(2);
    C(eqs(hmtx.substr(4 * slot, 4), hm), "glyph-metrics");
}
static std::string text;
static std::vector<unsigned> want;
static void add(int k) { text += utf8(CP[k]); want.push_back(GID[k]); }
static CidFont *CF;
static void write_and_check(CapyPDF_FontId id) {
    DC *dc = d->page();
    OK(capy_dc_render_text, dc, text.c_str(), (int32_t)text.size(), id, 12, 10, 20);
    d->add(dc);
    d->finish();
    auto ops = content::parse(d->contents(d->pg(0)));
    O fd = d->out.get(d->out.get(d->pg(0), "Resources"), "Font");
    C(fd && fd->k == pdf::Dict && fd->a.size() == 1, "font-resource");
    CF = new CidFont(*d);
    CF->read(d->out.deref(&fd->a[0]));
    C(CF->cid->name_is("Subtype", "CIDFontType2") && CF->cid->name_is("CIDToGIDMap", "Identity"), "font-kind");
    O st = d->out.deref(CF->desc->get("FontFile3"));
    C(st->name_is("Subtype", "OpenType"), "font-program-kind");
    S.parse(CF->program);
    // the tables
    std::string head = S.tab("head"), h = F.head;
    memset(&head[8], 0, 4); memset(&h[8], 0, 4); h[50] = 0; h[51] = 1;
    C(eqs(head, h), "subset-head");
    std::string mx = F.maxp; mx[4] = (char)(S.n >> 8); mx[5] = (char)S.n;
    C(eqs(S.tab("maxp"), mx), "subset-maxp");
    std::string hh = F.hhea; hh[34] = (char)(S.n >> 8); hh[35] = (char)S.n;
    C(eqs(S.tab("hhea"), hh) && S.tab("hmtx").size() == 4 * S.n, "subset-hhea");
    const char *names[3] = {"cvt ", "fpgm", "prep"}; std::string *raw[3] = {&F.cvt, &F.fpgm, &F.prep};
    for(int i = 0; i < 3; i++) { C(S.has(names[i]) != raw[i]->empty(), "subset-programs-present"); if(!raw[i]->empty()) C(eqs(S.tab(names[i]), *raw[i]), "subset-programs"); }
    C(S.n >= 1 && S.n <= 1 + NGL, "subset-size");
    same_glyph(0, 0);
    // the codes shown
    unsigned shown = 0;
    for(auto &o : ops) if(o.op == "Tj") {
        const std::string &s = o.args[0].s;
        C(s.size() == 2 * want.size(), "text-codes");
        for(size_t i = 0; i < want.size(); i++) { same_glyph((unsigned)capysym_pick(g16(s, 2 * i)), want[i]); C(g16(s, 2 * i) != 0, "text-notdef"); }
        shown++;
    }
    C(shown == 1 && CF->W.size() == S.n, "font-widths-count");
    C(live_ft == 1 && ft_misuse == 0 && live_mm == 0, "freetype-use");
    OK(capy_generator_destroy, g);
    C(live_faces == 0 && live_ft == 0, "freetype-released");
}
static void put(const std::string &file, int sub = 0) { env::put("/m/f.ttf", file); known_fonts.push_back({"/m/f.ttf", sub, &F}); }
#if PART == 0
// which glyphs are used, in which order
static void body() {
    glyphs();
    put(ttf(F));
    auto id = load("/m/f.ttf");
    int n = 1 + capysym_choice("count", 3);
    for(int i = 0; i < n; i++) add(capysym_choice("char", 5));
    write_and_check(id);
    capysym_reach("glyphs");
}
#elif PART == 1
// the shape of the component records
static void body() {
    glyphs();
    put(ttf(F));
    auto id = load("/m/f.ttf");
    add(3);
    if(capysym_choice("both", 2)) add(2);
    write_and_check(id);
    capysym_reach("components");
}
#elif PART == 2
// the layout of the source: location format, metrics, optional tables, collections
static void body() {
    glyphs();
    F.loca = capysym_choice("loca", 2);
    static const int NHM[3] = {NGL, 3, 1};
    F.nhm = NHM[capysym_choice("nhm", 3)];
    F.maxp05 = capysym_choice("maxp", 2);
    int t = capysym_choice("programs", 5), coll = capysym_choice("collection", 3);
    if(t == 1 || t == 4) symbytes(F.cvt, 6, "cvt");
    if(t == 2 || t == 4) symbytes(F.fpgm, 5, "fpgm");
    if(t == 3 || t == 4) symbytes(F.prep, 3, "prep");
    if(!coll) put(ttf(F));
    else {
        std::string o, c = "ttcf";
        unsigned nf = coll, base = 12 + 4 * nf;
        Font X; X.gl.resize(2); X.gl[0].data = simple(1, "xx"); X.gl[1].data = simple(1, "yy");
        if(coll == 2) { o = sfnt(tables_of(X), base); while(o.size() % 4) o += '\0'; }
        p16(c, 1); p16(c, 0); p32(c, nf);
        if(coll == 2) p32(c, base);
        p32(c, base + o.size());
        put(c + o + sfnt(tables_of(F), base + o.size()), coll - 1);
    }
    auto id = load("/m/f.ttf", coll ? coll - 1 : 0);
    add(0); add(3);
    write_and_check(id);
    capysym_reach("layout");
}
#elif PART == 3
// variable fonts: the outlines are those FreeType computes for the chosen instance
static void body() {
    glyphs();
    F.variable = true;
    F.gl[SPACE].data = "";
    F.axes = 1 + capysym_choice("axes", 2);
    Glyph &a = F.gl[A_];
    int how = capysym_choice("how", 6);
    unsigned np = how ? 3 : 3 + capysym_choice("points", 2);
    for(unsigned i = 0; i < np; i++) { a.x.push_back((int)capysym_range("x", -300, 300)); a.y.push_back((int)capysym_range("y", -300, 300)); a.on.push_back(i & 1 ? (int)capysym_range("on", 0, 1) : 1); }
    if(np == 4 && capysym_choice("contours", 2)) a.ends = {0, 3}; else a.ends = {(int)np - 1};
    F.gl[NOTDEF].x = {1, 2, 3}; F.gl[NOTDEF].y = {4, 9, 5}; F.gl[NOTDEF].on = {1, 1, 1}; F.gl[NOTDEF].ends = {2};
    put(ttf(F));
    CapyPDF_FontProperties *p = nullptr;
    CapyPDF_FontId id;
    if(how) OK(capy_font_properties_new, &p);
    if(how == 1 || how == 4) OK(capy_font_properties_set_variation, p, "wght", 4, 700);
    if(how == 2) OK(capy_font_properties_set_variation, p, "wdth", 4, 80);
    if(how == 3 || how == 4) OK(capy_font_properties_set_named_instance, p, 2);
    if(how == 5) OK(capy_font_properties_set_named_instance, p, 9);
    bool ok = how != 5 && !(how == 2 && F.axes == 1);
    int rc = capy_generator_load_font(g, "/m/f.ttf", p, &id);
    if(p) OK(capy_font_properties_destroy, p);
    C((rc == 0) == ok, "variation-accepted");
    C(live_mm == 0, "freetype-released");
    if(!ok) { C(live_faces == 0, "freetype-released"); capysym_reach("refused"); return; }
    C(coords_set.size() == (size_t)F.axes && coords_set[0] == (how == 1 || how == 4 ? 700 : 400) << 16 && (F.axes == 1 || coords_set[1] == (how == 2 ? 80 : 100) << 16), "variation-coordinates");
    add(0); add(4);
    write_and_check(id);
    // read the outline of the first character back
    const std::string &o = S.gl[1];
    C(o.size() >= 10 && g16(o, 0) == a.ends.size(), "outline-contours");
    int lo[2] = {a.x[0], a.y[0]}, hi[2] = {a.x[0], a.y[0]};
    for(unsigned i = 1; i < np; i++) for(int k = 0; k < 2; k++) { int v = (k ? a.y : a.x)[i]; lo[k] = v < lo[k] ? v : lo[k]; hi[k] = v > hi[k] ? v : hi[k]; }
    C((int16_t)g16(o, 2) == lo[0] && (int16_t)g16(o, 4) == lo[1] && (int16_t)g16(o, 6) == hi[0] && (int16_t)g16(o, 8) == hi[1], "outline-box");
    size_t at = 10;
    for(int e : a.ends) { C(g16(o, at) == (unsigned)e, "outline-contour-ends"); at += 2; }
    C(g16(o, at) == 0, "outline-instructions"); at += 2;
    std::vector<unsigned> fl;
    for(unsigned i = 0; i < np; i++) {
        unsigned f = g8(o, at++);
        C((int)(f & 1) == a.on[i], "outline-on-curve");
        f = (unsigned)capysym_pick(f & 0xfe);
        C(!(f & 8), "outline-flags");
        fl.push_back(f);
    }
    for(int k = 0; k < 2; k++) {
        int v = 0;
        for(unsigned i = 0; i < np; i++) {
            bool sh = fl[i] & (k ? 4 : 2), same = fl[i] & (k ? 32 : 16);
            if(sh) { int b = g8(o, at++); v += same ? b : -b; }
            else if(!same) { v += (int16_t)g16(o, at); at += 2; }
            C(v == (k ? a.y : a.x)[i], "outline-points");
        }
    }
    C(at <= o.size() && o.size() - at < 4, "outline-size");
    capysym_reach("variable");
}
#endif
extern "C" void harness() {
    D doc;
    d = &doc;
    doc.open();
    g = doc.g;
    body();
    capysym_end();
}
