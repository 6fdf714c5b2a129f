// C13: text shows the glyphs of the characters given to it, with their widths, and extracts as the text given.
#include "fontmodels.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static std::string simple(const std::string &payload) { std::string s; p16(s, 1); for(int i = 0; i < 4; i++) p16(s, 10 * i); return s + payload; }
// fonts: glyphs 1..6 are distinguishable by their outlines and widths
enum { NG = 8 };
static const uint32_t CP[6] = {0x41, 0xe4, 0x6f22, 0x1f600, 0xa0, 0x20};
static const unsigned GID[6] = {1, 2, 3, 4, 5, 5};       // two code points share glyph 5
static const char *U8[6] = {"A", "\xc3\xa4", "\xe6\xbc\xa2", "\xf0\x9f\x98\x80", "\xc2\xa0", " "};
static Font F[2];
static int known;
static void mkfont(int k, int upem = 1000, bool accents = false) {
    Font &f = F[k];
    f.upem = upem;
    f.psname = k ? "Second" : "First";
    for(int i = 0; i < NG; i++) { Glyph x; x.data = simple(std::string(1, 'a' + k) + (char)('0' + i)); x.adv = i == 5 ? 0 : (100 + 50 * i + 7 * k); x.data += "xy"; while(x.data.size() % 4) x.data += '\0'; f.gl.push_back(x); }
    if(accents) { std::string &s = f.gl[2].data; s.clear(); p16(s, 0xffff); for(int i = 0; i < 4; i++) p16(s, 10 * i); p16(s, 2); p16(s, 7); s += "\1\2"; }     // made from glyph 7
    for(int i = 0; i < 6; i++) f.cmap.push_back({CP[i], k && i == 2 ? 6u : GID[i]});
    if(k) f.cmap.erase(f.cmap.begin() + 1);              // the second font has no a umlaut
}
static unsigned gid_of(int k, uint32_t c) { for(auto &m : F[k].cmap) if(m.first == c) return m.second; return 0; }
static CapyPDF_FontId load(int k) {
    std::string p = std::string("/m/f") + (char)('0' + k) + ".ttf";
    env::put(p.c_str(), ttf(F[k]));
    known_fonts.push_back({p, 0, &F[k]});
    CapyPDF_FontId id;
    OK(capy_generator_load_font, g, p.c_str(), nullptr, &id);
    return id;
}
// what the page should show, in order
struct Ev { int font; unsigned gid; std::vector<uint32_t> text; bool kern = false; int k = 0; int mark = 0; std::string actual; bool anytext = false; };
static std::vector<Ev> want;
static void show(int font, unsigned gid, std::vector<uint32_t> text) { Ev e; e.font = font; e.gid = gid; e.text = text; want.push_back(e); }
static bool all_mapped(int font, const std::vector<int> &cs) { for(int c : cs) if(!gid_of(font, CP[c])) return false; return true; }
static std::string utf(const std::vector<int> &cs) { std::string s; for(int c : cs) s += U8[c]; return s; }
static void put_text(int font, const std::vector<int> &cs) { for(int c : cs) show(font, gid_of(font, CP[c]), {CP[c]}); }
static std::vector<int> pick_text(const char *name, int n, int from = 6) { std::vector<int> r; for(int i = 0; i < n; i++) r.push_back(capysym_choice(name, from)); return r; }
static std::string u16be(const std::vector<int> &cs) {
    std::string s("\xfe\xff");
    for(int c : cs) { uint32_t v = CP[c]; if(v < 0x10000) p16(s, v); else { v -= 0x10000; p16(s, 0xd800 + (v >> 10)); p16(s, 0xdc00 + (v & 0x3ff)); } }
    return s;
}
// compare with what a viewer would find on the page
static void verify(int page, size_t nfonts) {
    auto ops = content::parse(d->contents(d->pg(page)));
    O fd = d->out.get(d->out.get(d->pg(page), "Resources"), "Font");
    std::vector<CidFont *> fonts(nfonts, nullptr);
    std::vector<Sub> subs(nfonts);
    int cur = -1;
    size_t at = 0;
    auto code = [&](unsigned c) {
        C(cur >= 0, "text-font-set");
        C(at < want.size(), "text-too-long");
        Ev &e = want[at++];
        C(!e.kern && !e.mark && e.font == cur, "text-order");
        CidFont *f = fonts[cur]; Sub &S = subs[cur];
        Font &src = F[cur];
        C(c < S.gl.size() && c < f->W.size(), "code-in-font");
        std::string wg = src.gl[e.gid].data, gg = S.gl[c];
        C(gg.size() >= wg.size() && gg.size() - wg.size() < 4, "code-shows-glyph");
        gg.resize(wg.size());
        if(e.gid == 2 && (g8(wg, 0) & 0x80)) {
            unsigned part = g16(gg, 12);
            C(part && part < S.gl.size() && eqs(S.gl[part].substr(0, src.gl[7].data.size()), src.gl[7].data), "code-shows-glyph");
            gg[12] = wg[12]; gg[13] = wg[13];
        }
        C(eqs(gg, wg), "code-shows-glyph");
        double w = src.gl[e.gid].adv * 1000.0 / src.upem, got = f->W[c];
        C(got <= w + 1 && got >= w - 1, "code-width");
        if(!e.anytext) C(f->text(c) == e.text, "code-extracts");
        else f->text(c);
    };
    auto str = [&](const std::string &s) { C(s.size() % 2 == 0, "text-codes"); for(size_t i = 0; i < s.size(); i += 2) code(g16(s, i)); };
    bool span = false;
    for(auto &o : ops) {
        if(o.op == "Tf") {
            O ref = fd ? fd->get(o.args[0].s.c_str()) : nullptr;
            C(ref && ref->k == pdf::Ref, "font-resource");
            O fo = d->out.deref(ref);
            cur = -1;
            if(!fo->name_is("Subtype", "Type0")) { C(fo->name_is("Subtype", "Type1"), "font-kind"); continue; }
            CidFont *cf = new CidFont(*d);
            cf->read(fo);
            O bn = fo->get("BaseFont");
            for(size_t k = 0; k < nfonts; k++) if(bn->s.substr(7) == F[k].psname) cur = (int)k;
            C(cur >= 0, "font-name");
            fonts[cur] = cf;
            subs[cur] = Sub();
            subs[cur].parse(cf->program);
            O bb = d->out.get(cf->desc, "FontBBox");
            C(bb && bb->k == pdf::Array && bb->a.size() == 4, "font-bbox");
            for(int i = 0; i < 4; i++) { double v = F[cur].bbox[i] * 1000.0 / F[cur].upem; C(bb->a[i].num() && (bb->a[i].k == pdf::Int ? bb->a[i].i : bb->a[i].r) <= v + 1 && (bb->a[i].k == pdf::Int ? bb->a[i].i : bb->a[i].r) >= v - 1, "font-bbox"); }
        } else if(o.op == "Tj" && cur >= 0) str(o.args[0].s);
        else if(o.op == "TJ") {
            for(auto &x : o.args[0].a) {
                if(x.k == pdf::Str) str(x.s);
                else { C(at < want.size() && want[at].kern && content::is_num(x, want[at].k), "kerning"); at++; }
            }
        } else if(o.op == "BDC") {
            C(at < want.size() && want[at].mark == 1 && o.args[0].is("Span") && o.args[1].get("ActualText") && eqs(o.args[1].get("ActualText")->s, want[at].actual), "actual-text");
            at++; span = true;
        } else if(o.op == "EMC") { C(span && at < want.size() && want[at].mark == 2, "actual-text-end"); at++; span = false; }
    }
    C(at == want.size(), "text-too-short");
    C(ft_misuse == 0, "freetype-use");
}
#if PART == 0
// text given as strings, through every way of showing a string; characters that the font lacks are refused
static void body() {
    mkfont(0, capysym_choice("upem", 2) ? 2048 : 1000);
    auto id = load(0);
    DC *dc = d->page();
    int how = capysym_choice("how", 3), n = 1 + capysym_choice("length", 2);
    auto cs = pick_text("char", n, 6);
    bool bad = capysym_choice("missing", 2);
    std::string s = utf(cs);
    if(bad) s.insert(capysym_choice("where", 2) ? 0 : s.size(), capysym_choice("which", 2) ? "B" : "\xf0\x9f\x98\x81");
    int rc = 0;
    for(int round = 0; round < 2 && !rc; round++) {
        if(how == 0) rc = capy_dc_render_text(dc, s.c_str(), round ? -1 : (int32_t)s.size(), id, 12, 10, 20);
        else {
            CapyPDF_Text *t;
            OK(capy_dc_text_new, dc, &t);
            OK(capy_text_cmd_Tf, t, id, 10);
            if(how == 1) rc = capy_text_cmd_Tj(t, s.c_str(), round ? -1 : (int32_t)s.size());
            else {
                CapyPDF_TextSequence *q;
                OK(capy_text_sequence_new, &q);
                rc = capy_text_sequence_append_string(q, s.c_str(), round ? -1 : (int32_t)s.size());
                if(!rc) OK(capy_text_cmd_TJ, t, q);
                OK(capy_text_sequence_destroy, q);
            }
            if(!rc) rc = capy_dc_render_text_obj(dc, t);
            OK(capy_text_destroy, t);
        }
        if(rc == 0) put_text(0, cs);
    }
    C((rc == 0) == !bad, bad ? "missing-glyph-refused" : "text-accepted");
    capysym_reach(rc ? "refused" : "strings");
    if(rc) OK(capy_dc_render_text, dc, "A", 1, id, 12, 1, 2), show(0, 1, {0x41});
    d->add(dc);
    d->finish();
    verify(0, 1);
}
#elif PART == 1
// text sequences: code points, strings, kerning, actual text, glyphs chosen by the caller
static void body() {
    mkfont(0, 1000, true);
    auto id = load(0);
    DC *dc = d->page();
    CapyPDF_TextSequence *q;
    CapyPDF_Text *t;
    OK(capy_text_sequence_new, &q);
    OK(capy_dc_text_new, dc, &t);
    OK(capy_text_cmd_Tf, t, id, 10);
    bool in = false;
    std::vector<std::pair<unsigned, std::vector<uint32_t>>> used;      // glyph -> the text it was first used for
    auto use = [&](unsigned gid, std::vector<uint32_t> text) {
        bool other = false;
        for(auto &u : used) if(u.first == gid && u.second != text) other = true;
        used.push_back({gid, text});
        show(0, gid, text);
        want.back().anytext = other;         // one glyph, two texts: either may be what extracts
    };
    int n = LEN;
    for(int i = 0; i < n; i++) switch(capysym_choice("item", 6)) {
        case 0: { int c = capysym_choice("code", 2) ? 0 : 3; OK(capy_text_sequence_append_codepoint, q, CP[c]); use(gid_of(0, CP[c]), {CP[c]}); break; }
        case 1: OK(capy_text_sequence_append_string, q, "A\xc3\xa4", 3); use(1, {0x41}); use(2, {0xe4}); break;
        case 2: { Ev e; e.kern = true; static const int KV[3] = {-120, 0, 345}; e.k = KV[capysym_choice("kern", 3)]; OK(capy_text_sequence_append_kerning, q, e.k); want.push_back(e); break; }
        case 3: {
            int rc; Ev e;
            if(!in) { rc = capy_text_sequence_append_actualtext_start(q, "A\xf0\x9f\x98\x80", 5); e.mark = 1; e.actual = u16be({0, 3}); } else { rc = capy_text_sequence_append_actualtext_end(q); e.mark = 2; }
            C(rc == 0, "actual-text-accepted");
            C((!in ? capy_text_sequence_append_actualtext_start(q, "x", 1) : capy_text_sequence_append_actualtext_end(q)) != 0, "actual-text-nesting-refused");
            in = !in; want.push_back(e);
            break;
        }
        case 4: { unsigned gid = capysym_choice("glyph", 2) ? 1 : 7; uint32_t c = capysym_choice("gtext", 2) ? 0x41 : 0x1f600; OK(capy_text_sequence_append_raw_glyph, q, gid, c); use(gid, {c}); break; }
        case 5: { unsigned gid = capysym_choice("ligature", 2) ? 7 : 6; bool two = capysym_choice("ltext", 2); if(two) OK(capy_text_sequence_append_ligature_glyph, q, gid, "f\xf0\x9f\x98\x80", 5); else OK(capy_text_sequence_append_ligature_glyph, q, gid, "A", 1); use(gid, two ? std::vector<uint32_t>{'f', 0x1f600} : std::vector<uint32_t>{0x41}); break; }
    }
    if(in) { Ev e; e.mark = 2; C(capy_text_cmd_TJ(t, q) != 0, "open-actual-text-refused"); OK(capy_text_sequence_append_actualtext_end, q); want.push_back(e); }
    OK(capy_text_cmd_TJ, t, q);
    // the sequence can be used again
    OK(capy_text_sequence_append_string, q, "A", 1); use(1, {0x41});
    OK(capy_text_cmd_TJ, t, q);
    OK(capy_dc_render_text_obj, dc, t);
    OK(capy_text_destroy, t);
    OK(capy_text_sequence_destroy, q);
    d->add(dc);
    d->finish();
    verify(0, 1);
    capysym_reach("sequences");
}
#elif PART == 2
// several fonts, loaded and used in any order
static void body() {
    mkfont(0); mkfont(1);
    DC *dc = d->page();
    CapyPDF_FontId id[2];
    // the second font is loaded before or after the first is used
    int late = capysym_choice("late", 2);
    id[0] = load(0);
    if(!late) id[1] = load(1);
    else { OK(capy_dc_render_text, dc, U8[0], -1, id[0], 10, 1, 2); show(0, gid_of(0, CP[0]), {CP[0]}); id[1] = load(1); }
    int n = 3;
    for(int i = 0; i < n; i++) {
        int k = capysym_choice("font", 2), c = capysym_choice("char", 2) ? 0 : 2;
        OK(capy_dc_render_text, dc, U8[c], -1, id[k], 10, 1, 2);
        show(k, gid_of(k, CP[c]), {CP[c]});
    }
    C(capy_dc_render_text(dc, U8[1], -1, id[1], 10, 1, 2) != 0, "missing-glyph-refused");
    double w = 0;
    OK(capy_generator_text_width, g, U8[0], -1, id[1], 10, &w);
    double ww = F[1].gl[1].adv * 10.0 / F[1].upem;
    C(w < ww + 0.01 && w > ww - 0.01, "text-width");
    d->add(dc);
    d->finish();
    verify(0, 2);
    capysym_reach("fonts");
}
#elif PART == 3
// the width of a text is that of its characters and the kerning between them
static void body() {
    mkfont(0, capysym_choice("upem", 2) ? 2048 : 1000);
    F[0].kerning = capysym_choice("kerning", 2);
    F[0].kern = F[0].kerning && capysym_choice("kern", 2) ? 50 : -50;
    auto id = load(0);
    int n = capysym_choice("length", LEN + 2);
    auto cs = pick_text("char", n, 4);
    static const double PS[2] = {10, 12.5};
    double ps = PS[capysym_choice("size", 2)], w = -1, want = 0;
    std::string s = utf(cs);
    bool bad = n < 3 && capysym_choice("missing", 2);
    int rc = capy_generator_text_width(g, bad ? (s + "B").c_str() : s.c_str(), -1, id, ps, &w);
    if(bad) { C(rc != 0 || w >= 0, "missing-glyph-handled"); capysym_reach("refused"); return; }
    C(rc == 0, "text-width-accepted");
    for(int c : cs) want += F[0].gl[gid_of(0, CP[c])].adv * ps / F[0].upem;
    for(int i = 1; i < n && F[0].kerning; i++) want += kern_of(F[0], gid_of(0, CP[cs[i - 1]]), gid_of(0, CP[cs[i]])) * ps / F[0].upem;
    C(w < want + 0.02 && w > want - 0.02, "text-width");
    capysym_reach("widths");
}
#elif PART == 4
// more characters than fit in one block of the ToUnicode map, and unusual fonts
static void body() {
    int how = capysym_choice("how", 4);
    mkfont(0);
    Font &f = F[0];
    std::string s;
    if(how == 0) {
        int n = 99 + (int)capysym_choice("count", 3);
        f.gl.resize(2 + n); f.cmap.clear();
        for(int i = 0; i < 2 + n; i++) { f.gl[i].data = simple(std::string("g") + (char)i + "zz"); while(f.gl[i].data.size() % 4) f.gl[i].data += '\0'; f.gl[i].hm.clear(); f.gl[i].adv = 500 + i; }
        for(int i = 0; i < n; i++) f.cmap.push_back({0x4e00u + i, 1u + i});
        auto id = load(0);
        DC *dc = d->page();
        for(int i = 0; i < n; i++) { unsigned c = 0x4e00 + i; s += (char)0xe4; s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); show(0, 1 + i, {c}); }
        OK(capy_dc_render_text, dc, s.c_str(), -1, id, 10, 1, 2);
        d->add(dc);
    } else if(how == 1) {
        f.no_psname = true;
        auto id = load(0);
        DC *dc = d->page();
        OK(capy_dc_render_text, dc, "A", -1, id, 10, 1, 2);
        d->add(dc);
        d->finish();
        auto fd = d->out.get(d->out.get(d->pg(0), "Resources"), "Font");
        CidFont cf(*d); cf.read(d->out.deref(&fd->a[0]));
        C(cf.text(1) == std::vector<uint32_t>{0x41}, "code-extracts");
        capysym_reach("unusual");
        return;
    } else if(how == 2) {
        // loading fails: nothing changes
        f.fail = capysym_choice("fail", 2); f.opentype = !f.fail;
        env::put("/m/f.ttf", ttf(f));
        known_fonts.push_back({"/m/f.ttf", 0, &f});
        CapyPDF_FontId id{-7};
        C(capy_generator_load_font(g, "/m/f.ttf", nullptr, &id) != 0, "font-refused");
        C(id.id == -7 && live_faces == 0, "font-refused-unchanged");
        C(capy_generator_load_font(g, "/m/none.ttf", nullptr, &id) != 0, "font-refused");
        mkfont(1);
        id = load(1);
        DC *dc = d->page();
        OK(capy_dc_render_text, dc, "A", -1, id, 10, 1, 2);
        d->add(dc);
        d->finish();
        std::swap(F[0], F[1]);
        show(0, 1, {0x41});
        verify(0, 1);
        capysym_reach("unusual");
        return;
    } else {
        // code point zero, and invalid code points
        f.cmap.push_back({0, 7});
        auto id = load(0);
        DC *dc = d->page();
        CapyPDF_TextSequence *q; CapyPDF_Text *t;
        OK(capy_text_sequence_new, &q);
        OK(capy_dc_text_new, dc, &t);
        OK(capy_text_cmd_Tf, t, id, 10);
        static const uint32_t BAD[5] = {0xd800, 0xdfff, 0x110000, 0xffffffff, 0};
        uint32_t c = BAD[capysym_choice("bad", 5)];
        bool raw = capysym_choice("raw", 2);
        int rc = raw ? capy_text_sequence_append_raw_glyph(q, 6, c) : capy_text_sequence_append_codepoint(q, c);
        if(c) C(!raw || rc != 0, "invalid-codepoint-refused");
        if(!rc) rc = capy_text_cmd_TJ(t, q);
        if(!rc) rc = capy_dc_render_text_obj(dc, t);
        if(c) C(rc != 0, "invalid-codepoint-refused");
        if(!rc) show(0, raw ? 6 : 7, {0});
        OK(capy_text_destroy, t);
        OK(capy_text_sequence_destroy, q);
        OK(capy_dc_render_text, dc, "A", -1, id, 10, 1, 2);
        show(0, 1, {0x41});
        d->add(dc);
    }
    d->finish();
    verify(0, 1);
    capysym_reach("unusual");
}
#endif
extern "C" void harness() {
    D doc;
    d = &doc;
    doc.open();
    g = doc.g;
    body();
    capysym_end();
}
