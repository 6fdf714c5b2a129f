// TrueType files made table by table, and a model of FreeType that knows what such a file says.
#pragma once
#include "doc.hpp"
#include "content.hpp"
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_MULTIPLE_MASTERS_H
#include FT_OUTLINE_H
#ifndef MODEL
#define MODEL extern "C" __attribute__((used))
#endif
inline void p8(std::string &s, unsigned v) { s += (char)v; }
inline void p16(std::string &s, unsigned v) { s += (char)(v >> 8); s += (char)v; }
inline void p32(std::string &s, uint32_t v) { p16(s, v >> 16); p16(s, v & 0xffff); }
inline uint32_t g8(const std::string &s, size_t o) { return (unsigned char)s[o]; }
inline uint32_t g16(const std::string &s, size_t o) { return g8(s, o) << 8 | g8(s, o + 1); }
inline uint32_t g32(const std::string &s, size_t o) { uint32_t v; memcpy(&v, s.data() + o, 4); return __builtin_bswap32(v); }
struct Glyph { std::string data; int adv = 500; std::string hm; std::vector<int> x, y, on, ends; };   // hm: bytes of its hmtx entry
struct Font {
    std::vector<Glyph> gl;
    std::vector<std::pair<uint32_t, uint32_t>> cmap;      // code point -> glyph
    int upem = 1000, bbox[4] = {-100, -200, 900, 800};
    std::string psname = "Test-Font", format = "TrueType";
    bool no_psname = false, variable = false, opentype = false, kerning = false;
    int kern = 0, fail = 0, axes = 1;
    unsigned nhm = 0;                   // number of full horizontal metrics (0: all)
    int loca = 0; bool maxp05 = false;
    std::string cvt, fpgm, prep, head, hhea, maxp, cmaptab, cff;
};
struct Table { std::string tag, data; };
inline uint32_t sfnt_sum(const std::string &s, size_t o, size_t n) {
    uint32_t r = 0;
    for(size_t i = 0; i < n; i += 4) {
        uint32_t w = 0;
        if(i + 4 <= n) { r += g32(s, o + i); continue; }
        for(size_t k = 0; k < 4; k++) w = w << 8 | (i + k < n ? g8(s, o + i + k) : 0);
        r += w;
    }
    return r;
}
// The tables in a file; `base` is where the file starts in the collection
inline std::string sfnt(const std::vector<Table> &t, size_t base = 0, uint32_t version = 0x10000) {
    std::string s, body;
    unsigned p = 1, l = 0;
    while(p * 2 <= t.size()) { p *= 2; l++; }
    p32(s, version); p16(s, t.size()); p16(s, p * 16); p16(s, l); p16(s, t.size() * 16 - p * 16);
    size_t at = 12 + 16 * t.size();
    for(auto &x : t) {
        while((at + body.size()) % 4) body += '\0';
        s += x.tag; p32(s, 0); p32(s, base + at + body.size()); p32(s, x.data.size());
        body += x.data;
    }
    return s + body;
}
inline std::vector<Table> tables_of(Font &f) {
    std::vector<Table> t;
    std::string glyf, loca, hmtx;
    unsigned n = f.gl.size(), nhm = f.nhm ? f.nhm : n;
    for(unsigned i = 0; i < n; i++) {
        if(f.loca) p32(loca, glyf.size()); else p16(loca, glyf.size() / 2);
        glyf += f.gl[i].data;
        if(f.gl[i].hm.empty()) { p16(f.gl[i].hm, f.gl[i].adv); p16(f.gl[i].hm, i + 1); }
        if(i < nhm) hmtx += f.gl[i].hm; else hmtx += f.gl[i].hm.substr(2);
    }
    if(f.loca) p32(loca, glyf.size()); else p16(loca, glyf.size() / 2);
    if(f.maxp.empty()) {
        if(f.maxp05) { p32(f.maxp, 0x5000); p16(f.maxp, n); }
        else { p32(f.maxp, 0x10000); p16(f.maxp, n); for(int i = 0; i < 13; i++) p16(f.maxp, i + 2); }
    }
    if(f.head.empty()) { p32(f.head, 0x10000); p32(f.head, 0x20000); p32(f.head, 0x12345678); p32(f.head, 0x5f0f3cf5); p16(f.head, 3); p16(f.head, f.upem); for(int i = 0; i < 16; i++) p8(f.head, i); for(int i = 0; i < 4; i++) p16(f.head, f.bbox[i]); p16(f.head, 0); p16(f.head, 8); p16(f.head, 2); p16(f.head, f.loca); p16(f.head, 0); }
    if(f.hhea.empty()) { p32(f.hhea, 0x10000); for(int i = 0; i < 15; i++) p16(f.hhea, i >= 10 ? 0 : i + 20); p16(f.hhea, nhm); }
    if(f.cmaptab.empty()) { p16(f.cmaptab, 0); p16(f.cmaptab, 1); p16(f.cmaptab, 1); p16(f.cmaptab, 0); p32(f.cmaptab, 12); p16(f.cmaptab, 6); p16(f.cmaptab, 12); p16(f.cmaptab, 0); p16(f.cmaptab, 65); p16(f.cmaptab, 1); p16(f.cmaptab, 1); }
    t.push_back({"cmap", f.cmaptab});
    if(!f.cvt.empty()) t.push_back({"cvt ", f.cvt});
    if(!f.fpgm.empty()) t.push_back({"fpgm", f.fpgm});
    if(f.cff.empty()) t.push_back({"glyf", glyf});
    t.push_back({"head", f.head}); t.push_back({"hhea", f.hhea}); t.push_back({"hmtx", hmtx});
    if(f.cff.empty()) t.push_back({"loca", loca});
    t.push_back({"maxp", f.maxp});
    if(!f.prep.empty()) t.push_back({"prep", f.prep});
    if(!f.cff.empty()) t.insert(t.begin(), {"CFF ", f.cff});
    return t;
}
inline std::string ttf(Font &f) { return sfnt(tables_of(f), 0, f.cff.empty() ? 0x10000 : 0x4f54544f); }
// What FreeType answers for the file of that name and subfont
struct Known { std::string path; int sub; Font *f; };
inline std::vector<Known> known_fonts;
inline int live_faces, live_ft, live_mm, ft_misuse;
struct FaceX { FT_FaceRec r; FT_GlyphSlotRec slot; Font *f; double scale; std::vector<FT_Vector> pts; std::vector<unsigned char> tags; std::vector<short> ends; std::vector<FT_Fixed> coords; };
MODEL FT_Error model_FT_Init_FreeType(FT_Library *l) { live_ft++; *l = (FT_Library)&live_ft; return 0; }
MODEL FT_Error model_FT_Done_FreeType(FT_Library) { live_ft--; return 0; }
MODEL FT_Error model_FT_New_Face(FT_Library, const char *path, FT_Long sub, FT_Face *out) {
    for(auto &k : known_fonts) if(k.path == path && k.sub == sub) {
        if(k.f->fail == 1) return 0x55;
        FaceX *x = new FaceX();
        memset(&x->r, 0, sizeof x->r); memset(&x->slot, 0, sizeof x->slot);
        x->f = k.f; x->scale = 0;
        x->r.glyph = &x->slot; x->slot.library = (FT_Library)&live_ft; x->slot.face = &x->r;
        x->r.units_per_EM = k.f->upem; x->r.num_glyphs = k.f->gl.size();
        x->r.bbox.xMin = k.f->bbox[0]; x->r.bbox.yMin = k.f->bbox[1]; x->r.bbox.xMax = k.f->bbox[2]; x->r.bbox.yMax = k.f->bbox[3];
        x->r.face_flags = FT_FACE_FLAG_SCALABLE | FT_FACE_FLAG_SFNT | FT_FACE_FLAG_HORIZONTAL | (k.f->kerning ? FT_FACE_FLAG_KERNING : 0) | (k.f->variable ? FT_FACE_FLAG_MULTIPLE_MASTERS : 0);
        live_faces++;
        *out = &x->r;
        return 0;
    }
    return FT_Err_Cannot_Open_Resource;
}
MODEL FT_Error model_FT_Done_Face(FT_Face f) { live_faces--; delete (FaceX *)f; return 0; }
MODEL const char *model_FT_Get_Font_Format(FT_Face f) { return ((FaceX *)f)->f->format.c_str(); }
MODEL const char *model_FT_Get_Postscript_Name(FT_Face f) { return ((FaceX *)f)->f->no_psname ? nullptr : ((FaceX *)f)->f->psname.c_str(); }
MODEL FT_UInt model_FT_Get_Char_Index(FT_Face f, FT_ULong c) { for(auto &m : ((FaceX *)f)->f->cmap) if(m.first == c) return m.second; return 0; }
MODEL FT_Error model_FT_Set_Char_Size(FT_Face f, FT_F26Dot6 w, FT_F26Dot6 h, FT_UInt rx, FT_UInt ry) {
    if(!w) w = h;
    if(!h || rx != ry) { ft_misuse++; return 6; }
    ((FaceX *)f)->scale = (double)w * rx / 72 / ((FaceX *)f)->f->upem;      // 26.6 pixels per font unit
    return 0;
}
MODEL FT_Error model_FT_Load_Glyph(FT_Face f, FT_UInt g, FT_Int32 flags) {
    FaceX *x = (FaceX *)f;
    if(g >= x->f->gl.size() || x->f->fail == 2) return 0x10;
    Glyph &gl = x->f->gl[g];
    if(flags & FT_LOAD_NO_SCALE) x->slot.metrics.horiAdvance = gl.adv;
    else { if(x->scale == 0) ft_misuse++; x->slot.metrics.horiAdvance = (FT_Pos)(gl.adv * x->scale + (gl.adv < 0 ? -0.5 : 0.5)); }
    x->pts.clear(); x->tags.clear(); x->ends.clear();
    for(size_t i = 0; i < gl.x.size(); i++) { x->pts.push_back({gl.x[i], gl.y[i]}); x->tags.push_back((unsigned char)(gl.on[i] | 0x40)); }
    for(int e : gl.ends) x->ends.push_back((short)e);
    x->slot.format = FT_GLYPH_FORMAT_OUTLINE;
    x->slot.outline.n_contours = (short)x->ends.size(); x->slot.outline.n_points = (short)x->pts.size();
    x->slot.outline.points = x->pts.data();
    x->slot.outline.tags = (decltype(x->slot.outline.tags))x->tags.data();
    x->slot.outline.contours = (decltype(x->slot.outline.contours))x->ends.data();
    return 0;
}
MODEL FT_Error model_FT_Load_Char(FT_Face f, FT_ULong c, FT_Int32 flags) { return model_FT_Load_Glyph(f, model_FT_Get_Char_Index(f, c), flags); }
// different for every pair
inline int kern_of(const Font &f, unsigned left, unsigned right) { return f.kern * (1 + (int)((left + 2 * right) % 3)); }
MODEL FT_Error model_FT_Get_Kerning(FT_Face f, FT_UInt l, FT_UInt r, FT_UInt mode, FT_Vector *v) {
    FaceX *x = (FaceX *)f;
    v->y = 0;
    if(mode == FT_KERNING_UNSCALED) v->x = kern_of(*x->f, l, r);
    else { if(x->scale == 0) ft_misuse++; v->x = (FT_Pos)(kern_of(*x->f, l, r) * x->scale); }
    return 0;
}
MODEL FT_Error model_FT_OpenType_Validate(FT_Face f, FT_UInt, FT_Bytes *, FT_Bytes *, FT_Bytes *, FT_Bytes *, FT_Bytes *) { return ((FaceX *)f)->f->opentype ? 0 : 7; }
MODEL FT_Error model_FT_Get_MM_Var(FT_Face f, FT_MM_Var **out) {
    FaceX *x = (FaceX *)f;
    if(!x->f->variable) return 6;
    FT_MM_Var *m = new FT_MM_Var();
    m->num_axis = x->f->axes;
    m->axis = new FT_Var_Axis[x->f->axes]();
    for(int i = 0; i < x->f->axes; i++) m->axis[i].tag = i == 0 ? 0x77676874 : 0x77647468;     // wght, wdth
    x->coords.resize(x->f->axes);
    for(int i = 0; i < x->f->axes; i++) x->coords[i] = (400 - 300 * i) << 16;
    live_mm++;
    *out = m;
    return 0;
}
MODEL FT_Error model_FT_Done_MM_Var(FT_Library, FT_MM_Var *m) { delete[] m->axis; delete m; live_mm--; return 0; }
MODEL FT_Error model_FT_Get_Default_Named_Instance(FT_Face, FT_UInt *i) { *i = 0; return 0; }
MODEL FT_Error model_FT_Set_Named_Instance(FT_Face, FT_UInt i) { return i > 3 ? 6 : 0; }
MODEL FT_Error model_FT_Get_Var_Design_Coordinates(FT_Face f, FT_UInt n, FT_Fixed *c) { FaceX *x = (FaceX *)f; for(FT_UInt i = 0; i < n; i++) c[i] = i < x->coords.size() ? x->coords[i] : 0; return 0; }
inline std::vector<FT_Fixed> coords_set;
MODEL FT_Error model_FT_Set_Var_Design_Coordinates(FT_Face, FT_UInt n, FT_Fixed *c) { coords_set.assign(c, c + n); return 0; }
// ---------------------------------------------------------------- reading fonts back
// One entry of a composite glyph
struct Comp { unsigned flags, gid; size_t at; };
inline std::vector<Comp> components(const std::string &d, const char *label) {
    std::vector<Comp> r;
    size_t o = 10;
    for(;;) {
        C(o + 4 <= d.size(), label);
        unsigned fl = capysym_pick(g16(d, o)), n = 4 + (fl & 1 ? 4 : 2) + (fl & 8 ? 2 : fl & 0x40 ? 4 : fl & 0x80 ? 8 : 0);
        r.push_back({fl, (unsigned)capysym_pick(g16(d, o + 2)), o});
        o += n;
        C(o <= d.size(), label);
        if(!(fl & 0x20)) return r;
    }
}
inline bool eqs(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
struct Sub {                                // an embedded TrueType font
    std::string s;
    std::vector<std::pair<std::string, std::pair<uint32_t, uint32_t>>> dir;
    unsigned n = 0;                         // glyphs
    std::vector<std::string> gl;
    bool has(const char *t) const { for(auto &e : dir) if(e.first == t) return true; return false; }
    std::string tab(const char *t) const { for(auto &e : dir) if(e.first == t) return s.substr(e.second.first, e.second.second); C(false, "subset-table-missing"); return std::string(); }
    void parse(const std::string &d) {
        s = d;
        C(s.size() >= 12 && g32(s, 0) == 0x10000, "subset-header");
        unsigned nt = g16(s, 4), p = 1, l = 0;
        while(p * 2 <= nt) { p *= 2; l++; }
        C(nt > 0 && g16(s, 6) == p * 16 && g16(s, 8) == l && g16(s, 10) == nt * 16 - p * 16, "subset-header-search");
        C(12 + 16 * nt <= s.size(), "subset-directory");
        for(unsigned i = 0; i < nt; i++) {
            size_t o = 12 + 16 * i;
            std::string tag = s.substr(o, 4);
            uint32_t off = (uint32_t)capysym_pick(g32(s, o + 8)), len = (uint32_t)capysym_pick(g32(s, o + 12));
            C(off >= 12 + 16 * nt && off <= s.size() && len <= s.size() - off, "subset-table-range");
            C(off % 4 == 0, "subset-table-aligned");
            for(auto &e : dir) { C(e.first < tag, "subset-directory-sorted"); C(e.second.first + e.second.second <= off || off + len <= e.second.first, "subset-tables-overlap"); }
            dir.push_back({tag, {off, len}});
        }
        for(unsigned i = 0; i < nt; i++) {
            auto &e = dir[i];
            std::string t = s.substr(e.second.first, e.second.second);
            if(e.first == "head") { C(t.size() == 54, "subset-head-size"); memset(&t[8], 0, 4); }
            C(g32(s, 12 + 16 * i + 4) == sfnt_sum(t, 0, t.size()), "subset-table-checksum");
        }
        C(sfnt_sum(s, 0, s.size()) == 0xB1B0AFBA, "subset-checksum");
        std::string maxp = tab("maxp"), head = tab("head"), loca = tab("loca"), glyf = tab("glyf");
        C(maxp.size() >= 6, "subset-maxp");
        n = g16(maxp, 4);
        C(g16(head, 50) == 1 && loca.size() == 4 * (n + 1), "subset-loca-size");
        for(unsigned i = 0; i < n; i++) {
            uint32_t a = g32(loca, 4 * i), b = g32(loca, 4 * i + 4);
            C(a <= b && b <= glyf.size(), "subset-loca");
            gl.push_back(glyf.substr(a, b - a));
        }
    }
};
// What a Type0 font of the document says about a character code
struct CidFont {
    D &d;
    const pdf::Obj *font = nullptr, *cid = nullptr, *desc = nullptr;
    std::vector<double> W;
    std::string program, cmap;
    std::vector<std::pair<unsigned, std::vector<unsigned>>> uni;     // code -> UTF-16 units
    unsigned declared = 0;
    explicit CidFont(D &d_) : d(d_) {}
    const pdf::Obj *g(const pdf::Obj *o, const char *k) { return d.out.get(o, k); }
    void read(const pdf::Obj *f) {
        font = f;
        C(f && f->name_is("Type", "Font") && f->name_is("Subtype", "Type0") && f->name_is("Encoding", "Identity-H"), "font-type0");
        const pdf::Obj *df = g(f, "DescendantFonts"), *ff, *w;
        C(df && df->k == pdf::Array && df->a.size() == 1 && df->a[0].k == pdf::Ref, "font-descendant");
        cid = d.out.deref(&df->a[0]);
        C(cid && cid->name_is("Type", "Font") && cid->get("Subtype"), "font-cidfont");
        const pdf::Obj *si = g(cid, "CIDSystemInfo");
        C(si && si->get("Registry") && si->get("Ordering") && si->get("Supplement") && si->get("Registry")->s == "Adobe" && si->get("Ordering")->s == "Identity", "font-system-info");
        desc = g(cid, "FontDescriptor");
        C(desc && desc->name_is("Type", "FontDescriptor"), "font-descriptor");
        const pdf::Obj *bn = f->get("BaseFont"), *bc = cid->get("BaseFont"), *fn = desc->get("FontName");
        C(bn && bc && fn && bn->k == pdf::Name && bc->k == pdf::Name && fn->k == pdf::Name && bn->s == bc->s && bc->s == fn->s, "font-names-agree");
        C(bn->s.size() > 7 && bn->s[6] == '+', "font-subset-tag");
        for(int i = 0; i < 6; i++) C(bn->s[i] >= 'A' && bn->s[i] <= 'Z', "font-subset-tag");
        for(const char *k : {"Flags", "ItalicAngle", "Ascent", "Descent", "CapHeight", "StemV"}) { const pdf::Obj *v = g(desc, k); C(v && v->num(), "font-descriptor-entries"); }
        w = g(cid, "W");
        C(w && w->k == pdf::Array && w->a.size() == 2 && w->a[0].k == pdf::Int && w->a[0].i == 0 && w->a[1].k == pdf::Array, "font-widths");
        for(auto &x : w->a[1].a) { C(x.num(), "font-widths"); W.push_back(x.k == pdf::Int ? (double)x.i : x.r); }
        C(!desc->has("FontFile") && !desc->has("FontFile2"), "font-program-key");
        ff = desc->get("FontFile3");
        program = d.stream(ff, "font-program");
        cmap = d.stream(f->get("ToUnicode"), "font-tounicode");
        parse_cmap();
    }
    // bfchar blocks of at most 100 entries, each code once
    void parse_cmap() {
        pdf::Lexer L(cmap);
        std::vector<pdf::Obj> args;
        bool space = false, done = false;
        while(!L.at_end()) {
            pdf::Obj o;
            C(L.value(o), "tounicode-syntax");
            if(o.k != pdf::Kw) { args.push_back(std::move(o)); continue; }
            if(o.s == "endcodespacerange") { C(args.size() == 2 && eqs(args[0].s, std::string("\0\0", 2)) && eqs(args[1].s, "\xff\xff"), "tounicode-codespace"); space = true; }
            else if(o.s == "beginbfchar") { C(!args.empty() && args.back().k == pdf::Int, "tounicode-count"); declared = args.back().i; C(declared <= 100, "tounicode-block-size"); }
            else if(o.s == "endbfchar") {
                C(args.size() == 2 * declared, "tounicode-count");
                for(size_t i = 0; i < args.size(); i += 2) {
                    C(args[i].k == pdf::Str && args[i].s.size() == 2 && args[i + 1].k == pdf::Str && args[i + 1].s.size() % 2 == 0 && !args[i + 1].s.empty(), "tounicode-entry");
                    std::vector<unsigned> u;
                    for(size_t k = 0; k < args[i + 1].s.size(); k += 2) u.push_back(g16(args[i + 1].s, k));
                    unsigned code = g16(args[i].s, 0);
                    for(auto &e : uni) C(e.first != code, "tounicode-duplicate");
                    uni.push_back({code, u});
                }
            } else if(o.s == "endcmap") done = true;
            args.clear();
        }
        C(space && done, "tounicode-structure");
    }
    // the text a code stands for, as code points (malformed UTF-16 fails)
    std::vector<uint32_t> text(unsigned code) {
        std::vector<uint32_t> r;
        for(auto &e : uni) if(e.first == code) {
            for(size_t i = 0; i < e.second.size(); i++) {
                unsigned u = e.second[i];
                if(u >= 0xd800 && u < 0xdc00) {
                    C(i + 1 < e.second.size() && e.second[i + 1] >= 0xdc00 && e.second[i + 1] < 0xe000, "tounicode-surrogates");
                    r.push_back(0x10000 + ((u - 0xd800) << 10) + (e.second[i + 1] - 0xdc00));
                    i++;
                } else { C(u < 0xdc00 || u >= 0xe000, "tounicode-surrogates"); r.push_back(u); }
            }
            return r;
        }
        C(false, "tounicode-missing");
        return r;
    }
};
