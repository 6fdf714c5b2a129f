// C12: embedded CFF subsets; C10: damaged CFF files
#include "cffmodels.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static Font F;
static cff::Src S;
static const char CH[4] = {'A', 'B', 'C', 'D'};
static void base(bool cid, int fds = 1) {
    S.cid = cid;
    S.strings = {"Adobe", "Japan1", "My Font"};
    S.top = cff::entry(cff::FullName, {393}) + cff::entry(cff::FontBBox, {-10, -200, 1000, 1200});
    for(int i = 0; i < 5; i++) S.chars.push_back(std::string("\x8b\x0e", 2 - (i == 3)) + (char)('a' + i));
    for(int i = 0; i < fds; i++) { cff::FD f; f.priv = cff::entry(cff::DefaultWidthX, {500 + 300 * i}) + cff::entry(cff::NominalWidthX, {-700 + i}); if(cid) f.entries = cff::entry(cff::FontName, {393}); S.fds.push_back(f); }
    S.sel.assign(5, 0);
    F.gl.resize(5);
    for(int i = 0; i < 5; i++) F.gl[i].adv = 300 + 10 * i;
    F.cmap = {{'A', 1}, {'B', 2}, {'C', 3}, {'D', 4}};
    F.format = "CFF";
    F.maxp05 = true;
}
static CapyPDF_FontId load() {
    F.cff = S.build();
    env::put("/m/f.otf", ttf(F));
    known_fonts.push_back({"/m/f.otf", 0, &F});
    CapyPDF_FontId id;
    OK(capy_generator_load_font, g, "/m/f.otf", nullptr, &id);
    return id;
}
static void verify(const std::vector<unsigned> &gids) {
    d->finish();
    auto ops = content::parse(d->contents(d->pg(0)));
    O fd = d->out.get(d->out.get(d->pg(0), "Resources"), "Font");
    C(fd && fd->k == pdf::Dict && fd->a.size() == 1, "font-resource");
    CidFont cf(*d);
    cf.read(d->out.deref(&fd->a[0]));
    C(cf.cid->name_is("Subtype", "CIDFontType0") && !cf.cid->has("CIDToGIDMap"), "cff-cidfont");
    O ff = d->out.get(cf.desc, "FontFile3");
    C(ff->get("Subtype") && ff->get("Subtype")->is("CIDFontType0C"), "cff-fontfile-subtype");
    cff::Font1 in, out;
    in.parse(F.cff);
    out.parse(cf.program);
    C(out.cid, "cff-subset-cid");
    C(out.chars.size() == cf.W.size(), "cff-glyph-count");
    for(size_t i = 1; i < out.charset.size(); i++) C(out.charset[i] == i, "cff-charset-identity");
    auto *cc = cff::find(out.top, cff::CIDCount);
    C(!cc || (cc->size() == 1 && (*cc)[0].v >= (int)out.chars.size()), "cff-cidcount");
    auto *ros = cff::find(out.top, cff::ROS);
    C(ros->size() == 3, "cff-ros");
    if(in.cid) { auto *r = cff::find(in.top, cff::ROS); for(int i = 0; i < 2; i++) C(out.sid((*ros)[i]) == in.sid((*r)[i]), "cff-ros"); }
    else C(out.sid((*ros)[0]) == "Adobe" && out.sid((*ros)[1]) == "Identity", "cff-ros");
    for(unsigned k : {cff::Notice, cff::FullName, cff::FamilyName, cff::Weight}) if(auto *v = cff::find(out.top, k)) { auto *w = cff::find(in.top, k); C(w && v->size() == 1 && out.sid((*v)[0]) == in.sid((*w)[0]), "cff-strings"); }
    for(unsigned k : {cff::FontBBox, cff::FontMatrix}) { auto *v = cff::find(in.top, k), *w = cff::find(out.top, k); C(!v == !w && (!v || cff::same(*v, *w)), "cff-top-entries"); }
    C(in.gsubrs.size() == out.gsubrs.size(), "cff-global-subrs");
    for(size_t i = 0; i < in.gsubrs.size(); i++) C(eqs(in.gsubrs[i], out.gsubrs[i]), "cff-global-subrs");
    // a glyph: what it draws and the dictionaries it is drawn with
    auto glyph = [&](unsigned gid, unsigned code) {
        C(code < out.chars.size() && eqs(out.chars[code], in.chars[gid]), "cff-code-shows-glyph");
        auto &a = in.fds[in.sel[gid]], &b = out.fds[out.sel[code]];
        size_t n = 0;
        for(auto &e : a.priv) {
            if(e.first == cff::Subrs || e.first == cff::Encoding) continue;
            n++;
            auto *v = cff::find(b.priv, e.first);
            C(v && cff::same(*v, e.second), "cff-private-entries");
        }
        for(auto &e : b.priv) if(e.first != cff::Subrs) n--;
        C(n == 0, "cff-private-entries");
        C(a.subrs.size() == b.subrs.size(), "cff-local-subrs");
        for(size_t i = 0; i < a.subrs.size(); i++) C(eqs(a.subrs[i], b.subrs[i]), "cff-local-subrs");
        if(in.cid) { auto *v = cff::find(a.d, cff::FontMatrix), *w = cff::find(b.d, cff::FontMatrix); C(!v == !w && (!v || cff::same(*v, *w)), "cff-fontdict-entries"); }
    };
    glyph(0, 0);
    size_t at = 0;
    for(auto &o : ops) {
        if(o.op != "Tj" && o.op != "TJ") continue;
        std::string s = o.op == "Tj" ? o.args[0].s : std::string();
        if(o.op == "TJ") for(auto &x : o.args[0].a) if(x.k == pdf::Str) s += x.s;
        for(size_t i = 0; i < s.size(); i += 2) {
            C(at < gids.size(), "text-too-long");
            unsigned code = g16(s, i), gid = gids[at++];
            glyph(gid, code);
            C(cf.W[code] == F.gl[gid].adv, "code-width");
            C(cf.text(code) == std::vector<uint32_t>{(uint32_t)CH[gid - 1]}, "code-extracts");
        }
    }
    C(at == gids.size(), "text-too-short");
}
static std::vector<unsigned> show(CapyPDF_FontId id, const std::vector<unsigned> &gids) {
    DC *dc = d->page();
    std::vector<unsigned> r = gids;
    for(unsigned c : gids) OK(capy_dc_render_text, dc, &CH[c - 1], 1, id, 12, 1, 2);
#if PART == 0
    int more = capysym_choice("by number", 3);
    if(more) {
        CapyPDF_TextSequence *q; CapyPDF_Text *t;
        OK(capy_text_sequence_new, &q);
        if(more == 1) OK(capy_text_sequence_append_raw_glyph, q, 3, 'C');
        else OK(capy_text_sequence_append_ligature_glyph, q, 4, "D", 1);
        OK(capy_dc_text_new, dc, &t);
        OK(capy_text_cmd_Tf, t, id, 10);
        OK(capy_text_cmd_TJ, t, q);
        OK(capy_dc_render_text_obj, dc, t);
        OK(capy_text_destroy, t);
        OK(capy_text_sequence_destroy, q);
        r.push_back(more == 1 ? 3 : 4);
    }
#endif
    d->add(dc);
    return r;
}
#if PART == 0
// which glyphs; what they are made of
static void body() {
    base(capysym_choice("cid", 2));
    S.offsize = 1 + capysym_choice("offset size", 4);
    S.csfmt = S.offsize % 3;
    std::string v;
    symbytes(v, 6, "data");
    S.chars[1] = v.substr(0, 2); S.chars[2] = v.substr(1, 1); S.chars[0] = v.substr(2, 1);
    int subrs = capysym_choice("subrs", 4);
    if(subrs & 1) S.gsubrs = {v.substr(3, 2), "", v.substr(0, 3)};
    if(subrs & 2) { S.fds[0].hassubrs = true; S.fds[0].subrs = {v.substr(4, 2), v.substr(0, 1)}; S.fds[0].subrs_first = capysym_choice("subrs first", 2); }
    auto id = load();
    unsigned c = 1 + capysym_choice("char", 4);
    verify(show(id, {c, 1 + c * 3 % 4}));
    capysym_reach("glyphs");
}
#elif PART == 1
// numbers of all kinds in the dictionaries
static void body() {
    base(capysym_choice("cid", 2));
    std::string v, n, m;
    symbytes(v, 4, "operand");
    auto operand = [&](int k) {
        std::string s;
        switch(k) {
            case 0: { capysym_assume(g8(v, 0) >= 32 && g8(v, 0) <= 246); s = v.substr(0, 1); break; }
            case 1: p8(s, 247 + capysym_choice("high", 4)); s += v.substr(0, 1); break;
            case 2: p8(s, 251 + capysym_choice("high", 4)); s += v.substr(0, 1); break;
            case 3: p8(s, 28); s += v.substr(0, 2); break;
            case 4: p8(s, 29); s += v; break;
            case 5: {    // a real number of up to three bytes, ended properly
                int l = 1 + capysym_choice("digits", 3);
                for(int i = 0; i < l; i++) { unsigned a = g8(v, i) >> 4, b = g8(v, i) & 15; capysym_assume(i + 1 < l ? a < 15 && b < 15 && a != 13 && b != 13 : b == 15 && a != 13); }
                p8(s, 30); s += v.substr(0, l);
                break;
            }
        }
        return s;
    };
    int where = capysym_choice("where", 4);
    n = operand(capysym_choice("kind", 6));
    std::string e = where < 2 ? n + cff::num(7) + cff::num(-300) + n : n;
    if(where == 0) S.fds[0].priv += e + cff::op(cff::BlueValues);
    if(where == 1) S.top = cff::entry(cff::FullName, {393}) + e + cff::op(cff::FontBBox);
    if(where == 2) S.fds[0].priv = e + cff::op(capysym_choice("op", 2) ? cff::BlueScale : cff::StdHW) + S.fds[0].priv;
    if(where == 3) {
        std::string fm = n + cff::num(0) + cff::num(0) + n + cff::num(0) + cff::num(0) + cff::op(cff::FontMatrix);
        if(S.cid && capysym_choice("matrix", 2)) S.fds[0].entries += fm; else S.top += fm;
    }
    S.fds[0].hassubrs = capysym_choice("subrs", 2);
    S.fds[0].subrs = {"q"};
    auto id = load();
    verify(show(id, {2}));
    capysym_reach("numbers");
}
#elif PART == 2
// several font dictionaries
static void body() {
    int n = 1 + capysym_choice("dictionaries", 3);
    base(true, n);
    S.selfmt = capysym_choice("format", 2) ? 3 : 0;
    for(int i = 0; i < 3; i++) S.sel[i] = capysym_choice("select", n);
    S.sel[3] = (S.sel[2] + 1) % n; S.sel[4] = S.sel[1];
    int kind = capysym_choice("kind", 4);
    for(int i = 0; i < n; i++) {
        auto &f = S.fds[i];
        f.hassubrs = kind == 1 ? i == 1 : kind > 1;
        f.subrs.assign(kind == 2 ? i : 2, std::string(1, (char)('s' + i)));
        if(kind == 3 && i == 1) f.haspriv = false, f.hassubrs = false;
        if(kind == 2) f.entries += cff::num(i + 1) + cff::num(0) + cff::num(0) + cff::num(i + 1) + cff::num(0) + cff::num(0) + cff::op(cff::FontMatrix);
    }
    if(kind == 1) S.top += cff::entry(cff::CIDCount, {5}) + cff::entry(cff::CIDFontVersion, {1});
    auto id = load();
    if(capysym_choice("chars", 2)) verify(show(id, {1, 3})); else verify(show(id, {3, 2, 1}));
    capysym_reach("dictionaries");
}
#endif
extern "C" void harness() {
    D doc;
    d = &doc;
    doc.open();
    g = doc.g;
    body();
    capysym_end();
}
