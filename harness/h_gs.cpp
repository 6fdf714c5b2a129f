// C26: graphics states, functions, shadings, patterns and colour spaces carry exactly the parameters given.
#include "features.hpp"
#include "content.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool num(O o, double v) { return o && content::is_num(*o, v); }
static bool arr(O o, const std::vector<double> &v) { if(!o || o->k != pdf::Array || o->a.size() != v.size()) return false; bool ok = true; for(size_t i = 0; i < v.size(); i++) ok = content::is_num(o->a[i], v[i]) & ok; return ok; }
static bool boolean(O o, int v) { return o && o->k == pdf::Bool && !!o->i == !!v; }
// the n-th object of a kind, in creation order
static O nth(const char *key, int n) { for(auto &e : d->out.x) if(e.o.get(key) && n-- == 0) return &e.o; return nullptr; }
static std::vector<double> nums(int n, const char *name) { std::vector<double> v(n); for(auto &x : v) x = symnum_a(name); return v; }
static std::vector<double> cat(std::vector<double> a, const std::vector<double> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static CapyPDF_Color *color(int n, std::vector<double> &v, const char *name) {
    v.resize(n);
    for(auto &x : v) x = symnum(name, false);      // up to 1024: clamped
    CapyPDF_Color *c = n == 1 ? gray(v[0]) : n == 3 ? rgb(v[0], v[1], v[2]) : cmyk(v[0], v[1], v[2], v[3]);
    for(auto &x : v) x = clamp01(x);
    return c;
}
static const int NCH[3] = {3, 1, 4};
static const char *CSN[3] = {"DeviceRGB", "DeviceGray", "DeviceCMYK"};
enum { CA, ca, SM, FL, BM, OP, op, OPM, AIS, TK, BPC, HT, SMASK, NKEY };
static void gstate() {
    static const char *KEY[NKEY] = {"CA", "ca", "SM", "FL", "BM", "OP", "op", "OPM", "AIS", "TK", "UseBlackPtComp", "HT", "SMask"};
    d->open();
    // every key alone, every pair of neighbours, all of them; with a second state that shares nothing
    int w = capysym_choice("keys", 2 * NKEY + 1), over = capysym_choice("overwrite", 2);
    unsigned mask = w < NKEY ? 1u << w : w < 2 * NKEY ? 1u << (w - NKEY) | 1u << ((w + 1) % NKEY) : (1u << NKEY) - 1;
    int ht = mask >> HT & 1 ? capysym_choice("halftone", 2) : 0, bv = capysym_choice("flags", 2);
    double va[2], vca[2], vsm[2], vfl[2], fr = 0, an = 0;
    CapyPDF_SoftMaskId sm{};
    CapyPDF_TransparencyGroupId tg{};
    if(mask >> SMASK & 1) { trgroup(*d); tg = trgroup(*d, false); CapyPDF_SoftMask *m; OK(capy_soft_mask_new, bv ? CAPY_SOFT_MASK_ALPHA : CAPY_SOFT_MASK_LUMINOSITY, tg, &m); OK(capy_generator_add_soft_mask, g = d->g, m, &sm); OK(capy_soft_mask_destroy, m); }
    g = d->g;
    CapyPDF_GraphicsState *s, *empty; CapyPDF_GraphicsStateId id, id2, id3;
    OK(capy_graphics_state_new, &s); OK(capy_graphics_state_new, &empty);
    for(int r = over ? 0 : 1; r < 2; r++) {
        bool v = r == 1 ? bv : !bv;
        if(mask >> CA & 1) { va[r] = symnum_a("CA"); OK(capy_graphics_state_set_CA, s, va[r]); }
        if(mask >> ca & 1) { vca[r] = symnum_a("ca"); OK(capy_graphics_state_set_ca, s, vca[r]); }
        if(mask >> SM & 1) { vsm[r] = symnum_a("SM"); int rc = capy_graphics_state_set_SM(s, vsm[r]); C((rc == 0) == (vsm[r] >= 0 && vsm[r] <= 1), "verdict:SM"); if(rc) { vsm[r] = 0.25; OK(capy_graphics_state_set_SM, s, 0.25); } }
        if(mask >> FL & 1) { vfl[r] = symnum_a("FL"); int rc = capy_graphics_state_set_FL(s, vfl[r]); C((rc == 0) == (vfl[r] >= 0), "verdict:FL"); if(rc) { vfl[r] = 7; OK(capy_graphics_state_set_FL, s, 7); } }
        if(mask >> BM & 1) OK(capy_graphics_state_set_BM, s, v ? CAPY_BM_SCREEN : CAPY_BM_HUE);
        if(mask >> OP & 1) OK(capy_graphics_state_set_OP, s, v);
        if(mask >> op & 1) OK(capy_graphics_state_set_op, s, !v);
        if(mask >> OPM & 1) OK(capy_graphics_state_set_OPM, s, v);
        if(mask >> AIS & 1) OK(capy_graphics_state_set_AIS, s, !v);
        if(mask >> TK & 1) OK(capy_graphics_state_set_TK, s, v);
        if(mask >> BPC & 1) OK(capy_graphics_state_set_blackpoint_compensation, s, v ? CAPY_BLACK_POINT_COMPENSATION_ON : CAPY_BLACK_POINT_COMPENSATION_OFF);
        if(mask >> HT & 1) { CapyPDF_Halftone *h; OK(capy_halftone_new, &h); if(ht == 1) { fr = symnum("frequency", false); an = symnum_a("angle"); OK(capy_halftone_set_type1, h, fr, an, CAPY_HT_FUNC_ELLIPSEC); } else OK(capy_halftone_set_default, h); OK(capy_graphics_state_set_HT, s, h); OK(capy_halftone_destroy, h); }
        if(mask >> SMASK & 1) OK(capy_graphics_state_set_SMask, s, sm);
    }
    OK(capy_generator_add_graphics_state, g, s, &id);
    // changes made afterwards do not reach the state already added
    OK(capy_graphics_state_set_CA, s, 0.125);
    OK(capy_graphics_state_set_FL, s, 99);
    OK(capy_generator_add_graphics_state, g, empty, &id2);
    OK(capy_generator_add_graphics_state, g, s, &id3);
    DC *dc = d->page(); OK(capy_dc_cmd_gs, dc, id); d->add(dc);
    dc = d->page(); OK(capy_dc_cmd_gs, dc, id2); d->add(dc);
    dc = d->page(); OK(capy_dc_cmd_gs, dc, id3); d->add(dc);
    OK(capy_graphics_state_destroy, s); OK(capy_graphics_state_destroy, empty);
    d->finish();
    O st[3];
    for(int i = 0; i < 3; i++) { O e = G(G(d->pg(i), "Resources"), "ExtGState"); C(e && e->a.size() == 1, "gs-resource"); st[i] = d->out.deref(&e->a[0]); C(st[i]->name_is("Type", "ExtGState"), "gs-type"); }
    C(st[1]->keys.size() == 1, "gs-unset-key-written");
    size_t n = 1;
    for(int k = 0; k < NKEY; k++) { C(st[0]->has(KEY[k]) == (mask >> k & 1), "gs-keys"); n += mask >> k & 1; }
    C(st[0]->keys.size() == n, "gs-keys");
    C(num(G(st[2], "CA"), 0.125) && num(G(st[2], "FL"), 99) && st[2]->keys.size() == n + !(mask >> CA & 1) + !(mask >> FL & 1), "gs-added-again");
    if(mask >> CA & 1) C(num(G(st[0], "CA"), clamp01(va[1])), "gs-CA");
    if(mask >> ca & 1) C(num(G(st[0], "ca"), clamp01(vca[1])), "gs-ca");
    if(mask >> SM & 1) C(num(G(st[0], "SM"), vsm[1]), "gs-SM");
    if(mask >> FL & 1) C(num(G(st[0], "FL"), vfl[1]), "gs-FL");
    if(mask >> BM & 1) C(st[0]->name_is("BM", bv ? "Screen" : "Hue"), "gs-BM");
    if(mask >> OP & 1) C(boolean(G(st[0], "OP"), bv), "gs-OP");
    if(mask >> op & 1) C(boolean(G(st[0], "op"), !bv), "gs-op");
    if(mask >> OPM & 1) C(num(G(st[0], "OPM"), bv), "gs-OPM");
    if(mask >> AIS & 1) C(boolean(G(st[0], "AIS"), !bv), "gs-AIS");
    if(mask >> TK & 1) C(boolean(G(st[0], "TK"), bv), "gs-TK");
    if(mask >> BPC & 1) C(st[0]->name_is("UseBlackPtComp", bv ? "ON" : "OFF"), "gs-UseBlackPtComp");
    if(mask >> HT & 1) { O h = G(st[0], "HT"); if(!ht) C(h->is("Default"), "gs-HT"); else C(h->name_is("Type", "Halftone") && num(G(h, "HalftoneType"), 1) && num(G(h, "Frequency"), fr) && num(G(h, "Angle"), an) && h->name_is("SpotFunction", "EllipseC"), "gs-HT"); }
    if(mask >> SMASK & 1) { O m = G(st[0], "SMask"); C(m && m->name_is("Type", "Mask") && m->name_is("S", bv ? "Alpha" : "Luminosity"), "soft-mask"); O gr = G(m, "G"); C(gr && gr->name_is("Subtype", "Form") && !gr->has("Group"), "soft-mask-group"); }
    capysym_reach("gstate");
}
static void functions() {
    d->open(); g = d->g;
    capysym_numtokens(1);
    int kind = capysym_choice("kind", 3);
    CapyPDF_Function *f; CapyPDF_FunctionId id, other;
    std::vector<double> dom = nums(2, "domain"), dcopy = dom;
    if(kind == 0) {
        int n0 = NCH[capysym_choice("cs0", 3)], n1 = NCH[capysym_choice("cs1", 3)];
        std::vector<double> c0, c1; auto *a = color(n0, c0, "C0"), *b = color(n1, c1, "C1"); double n = symnum("N", false);
        OK(capy_type2_function_new, dom.data(), 2, a, b, n, &f);
        for(auto &x : dom) x = 5;
        OK(capy_color_set_rgb, a, 0.5, 0.5, 0.5); OK(capy_color_destroy, a); OK(capy_color_destroy, b);
        int rc = capy_generator_add_function(g, f, &id);
        C((rc == 0) == (n0 == n1), "verdict:function2-colors");
        OK(capy_function_destroy, f);
        d->add(d->page()); d->finish();
        O o = nth("FunctionType", 0);
        if(rc) { C(!o, "function-of-failed-call"); return; }
        C(num(G(o, "FunctionType"), 2) && arr(G(o, "Domain"), dcopy) && arr(G(o, "C0"), c0) && arr(G(o, "C1"), c1) && num(G(o, "N"), n), "function2");
        C(o->keys.size() == 5, "function2-keys");
    } else if(kind == 1) {
        int k = capysym_choice("functions", 4);           // 0: refused
        CapyPDF_FunctionId fs[3];
        double d2[2] = {0, 1};
        for(int i = 0; i < 3; i++) { CapyPDF_Function *f2; OK(capy_type2_function_new, d2, 2, gray(i / 4.0), gray(1), 1, &f2); OK(capy_generator_add_function, g, f2, &fs[i]); OK(capy_function_destroy, f2); }
        CapyPDF_FunctionId use[3] = {fs[2], fs[0], fs[1]};
        std::vector<double> b = nums(k ? k - 1 : 0, "bound"), e = nums(2 * k, "encode"), bc = b, ec = e;
        b.resize(4); e.resize(8);
        OK(capy_type3_function_new, dom.data(), 2, use, k, b.data(), (int)bc.size(), e.data(), (int)ec.size(), &f);
        int rc = capy_generator_add_function(g, f, &id);
        C((rc == 0) == (k > 0), "verdict:function3-empty");
        OK(capy_function_destroy, f);
        d->add(d->page()); d->finish();
        O o = nth("FunctionType", 3);
        if(rc) { C(!o, "function-of-failed-call"); return; }
        C(num(G(o, "FunctionType"), 3) && arr(G(o, "Domain"), dcopy) && arr(G(o, "Bounds"), bc) && arr(G(o, "Encode"), ec), "function3");
        O l = G(o, "Functions"); C(l && l->k == pdf::Array && (int)l->a.size() == k, "function3-functions");
        for(int i = 0; i < k; i++) C(l->a[i].k == pdf::Ref && d->out.deref(&l->a[i]) == nth("FunctionType", i == 0 ? 2 : i - 1), "function3-functions");
    } else {
        int n = 1 + capysym_choice("outputs", 4); bool sized = capysym_choice("sized", 2);
        std::vector<double> ran = nums(2 * n, "range"), rc = ran;
        std::string code = "{ 1 exch sub }";
        OK(capy_type4_function_new, dom.data(), 2, ran.data(), 2 * n, sized ? "{ 1 exch sub } garbage" : code.c_str(), sized ? (int)code.size() : -1, &f);
        OK(capy_generator_add_function, g, f, &id);
        OK(capy_generator_add_function, g, f, &other);       // may be added again
        OK(capy_function_destroy, f);
        d->add(d->page()); d->finish();
        for(int i = 0; i < (other.id == id.id ? 1 : 2); i++) {
            O o = nth("FunctionType", i);
            C(o && num(G(o, "FunctionType"), 4) && arr(G(o, "Domain"), dcopy) && arr(G(o, "Range"), rc), "function4");
            std::string s; C(d->out.content(d->out.objnum(o), s) && s == code, "function4-code");
        }
    }
    capysym_reach("functions");
}
static void shadings() {
    d->open(); g = d->g;
    capysym_numtokens(1);
    int cs = capysym_choice("colorspace", 3), radial = capysym_choice("radial", 2), ext = capysym_choice("extend", 5), dm = capysym_choice("domain", 2), pat = capysym_choice("pattern", 3);
    auto mkfn = [&](int i) { return fn2(g, NCH[cs] == 1 ? gray(i / 4.0) : NCH[cs] == 3 ? rgb(0, 0, i / 4.0) : cmyk(0, i / 4.0, 0, 0), NCH[cs] == 1 ? gray(1) : NCH[cs] == 3 ? rgb(1, 0, 1) : cmyk(1, 0, 1, 0)); };
    mkfn(1); auto f = mkfn(2); mkfn(3);
    std::vector<double> co = nums(radial ? 6 : 4, "coords"), cc = co, dom, mt;
    CapyPDF_Shading *sh; CapyPDF_ShadingId id, id2;
    if(radial) OK(capy_type3_shading_new, (CapyPDF_Device_Colorspace)cs, co.data(), f, &sh); else OK(capy_type2_shading_new, (CapyPDF_Device_Colorspace)cs, co[0], co[1], co[2], co[3], f, &sh);
    for(auto &x : co) x = 1;
    if(ext) OK(capy_shading_set_extend, sh, (ext - 1) & 1, (ext - 1) >> 1);
    if(dm) { dom = nums(2, "sh-domain"); OK(capy_shading_set_domain, sh, dom[0], dom[1]); }
    OK(capy_generator_add_shading, g, sh, &id);
    OK(capy_shading_set_extend, sh, ext != 4, ext == 1);
    OK(capy_generator_add_shading, g, sh, &id2);
    OK(capy_shading_destroy, sh);
    DC *dc = d->page();
    if(pat) {
        CapyPDF_ShadingPattern *sp; CapyPDF_PatternId p; OK(capy_shading_pattern_new, id, &sp);
        if(pat == 2) { mt = nums(6, "matrix"); OK(capy_shading_pattern_set_matrix, sp, mt[0], mt[1], mt[2], mt[3], mt[4], mt[5]); }
        OK(capy_generator_add_shading_pattern, g, sp, &p); OK(capy_shading_pattern_destroy, sp);
        CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_pattern, c, p); OK(capy_dc_set_stroke, dc, c);
    } else OK(capy_dc_cmd_sh, dc, id);
    d->add(dc);
    d->finish();
    O r = G(d->pg(0), "Resources"), o;
    if(pat) { O p = G(r, "Pattern"); C(p && p->a.size() == 1, "pattern"); o = d->out.deref(&p->a[0]); C(o->name_is("Type", "Pattern") && num(G(o, "PatternType"), 2) && (pat == 2 ? arr(G(o, "Matrix"), mt) : !o->has("Matrix")), "shading-pattern"); o = G(o, "Shading"); }
    else { O s = G(r, "Shading"); C(s && s->a.size() == 1, "shading"); o = d->out.deref(&s->a[0]); }
    C(o && num(G(o, "ShadingType"), radial ? 3 : 2) && o->name_is("ColorSpace", CSN[cs]) && arr(G(o, "Coords"), cc), "shading-parameters");
    C(G(o, "Function") == nth("FunctionType", 1), "shading-function");
    O e = G(o, "Extend");
    C(ext ? e && e->k == pdf::Array && e->a.size() == 2 && boolean(&e->a[0], (ext - 1) & 1) && boolean(&e->a[1], (ext - 1) >> 1) : !e, "shading-extend");
    C(dm ? arr(G(o, "Domain"), dom) : !o->has("Domain"), "shading-domain");
    capysym_reach("shadings");
}
static void spaces() {
    d->open(); g = d->g;
    capysym_numtokens(1);
    int kind = capysym_choice("kind", 2);
    DC *dc = d->page();
    CapyPDF_Color *c; OK(capy_color_new, &c);
    if(kind == 0) {
        std::vector<double> v(7), lab(3);
        for(int i = 0; i < 3; i++) v[i] = symnum("white", false);
        for(int i = 3; i < 7; i++) v[i] = symnum("range", i & 1 ? false : false) * (i & 1 ? -1 : 1);
        CapyPDF_LabColorSpaceId id;
        int pg = capysym_choice("earlier", 2);
        if(pg) { CapyPDF_LabColorSpaceId o; OK(capy_generator_add_lab_colorspace, g, 1, 1, 1, -100, 100, -100, 100, &o); CapyPDF_Color *oc; OK(capy_color_new, &oc); OK(capy_color_set_lab, oc, o, 1, 2, 3); DC *od = d->page(); OK(capy_dc_set_stroke, od, oc); d->add(od); }
        int rc = capy_generator_add_lab_colorspace(g, v[0], v[1], v[2], v[3], v[4], v[5], v[6], &id);
        if(rc) { capysym_reach("lab-refused"); return; }
        for(auto &x : lab) x = symnum_a("lab");
        OK(capy_color_set_lab, c, id, lab[0], lab[1], lab[2]);
        OK(capy_dc_set_nonstroke, dc, c); d->add(dc); d->finish();
        O r = G(G(d->pg(pg), "Resources"), "ColorSpace"); C(r && r->a.size() == 1, "lab");
        O o = d->out.deref(&r->a[0]); C(o->k == pdf::Array && o->a.size() == 2 && o->a[0].is("Lab"), "lab");
        O p = d->out.deref(&o->a[1]);
        C(arr(G(p, "WhitePoint"), {v[0], v[1], v[2]}) && arr(G(p, "Range"), {v[3], v[4], v[5], v[6]}), "lab-parameters");
        for(auto &x : content::parse(d->contents(d->pg(pg)))) if(x.op == "scn") C(content::nums(x, {lab[0], lab[1], lab[2]}), "lab-color");
    } else {
        int cs = capysym_choice("colorspace", 3), fk = capysym_choice("function", 2);
        double dom[2] = {0, 1}, ran[8] = {0, 1, 0, 1, 0, 1, 0, 1};
        CapyPDF_Function *fo; CapyPDF_FunctionId f, f2, e0; OK(capy_type4_function_new, dom, 2, ran, 2 * NCH[cs], cs == 0 ? "{dup dup}" : cs == 1 ? "{}" : "{dup dup dup}", -1, &fo);
        f2 = fn2(g, gray(0), gray(1));
        OK(capy_generator_add_function, g, fo, &f); OK(capy_function_destroy, fo);
        CapyPDF_SeparationId id, e;
        // another ink, or another definition of the same ink, exists before
        int early = capysym_choice("earlier", 4);
        if(early) { int ecs = early == 2 ? (cs + 1) % 3 : cs; OK(capy_type4_function_new, dom, 2, ran, 2 * NCH[ecs], ecs == 0 ? "{dup 0}" : ecs == 1 ? "{1 exch sub}" : "{0 0 0}", -1, &fo); OK(capy_generator_add_function, g, fo, &e0); OK(capy_function_destroy, fo); OK(capy_generator_add_separation, g, early == 3 ? "Silver" : "Gold Ink", -1, (CapyPDF_Device_Colorspace)ecs, e0, &e); }
        int rc = capy_generator_add_separation(g, "Gold Ink", -1, (CapyPDF_Device_Colorspace)cs, fk ? f : f2, &id);
        C((rc == 0) == (fk == 1), "verdict:separation-function");
        if(rc) return;
        C(!early || id.id != e.id, "separation-distinct");
        double t = symnum_a("tint");
        { int r1 = capy_color_set_separation(c, id, t); C((r1 == 0) == (t >= 0 && t <= 1), "verdict:separation-tint"); if(r1) { t = 0.75; OK(capy_color_set_separation, c, id, t); } } OK(capy_dc_set_stroke, dc, c); d->add(dc); d->finish();
        O r = G(G(d->pg(0), "Resources"), "ColorSpace"); C(r && r->a.size() == 1, "separation");
        O o = d->out.deref(&r->a[0]);
        C(o->k == pdf::Array && o->a.size() == 4 && o->a[0].is("Separation") && o->a[1].is("Gold Ink") && o->a[2].is(CSN[cs]) && d->out.deref(&o->a[3]) == nth("FunctionType", 1), "separation");
        for(auto &x : content::parse(d->contents(d->pg(0)))) if(x.op == "SCN") C(content::nums(x, {clamp01(t)}), "separation-color");
    }
    capysym_reach("spaces");
}
extern "C" void harness(void) {
    D dd; d = &dd;
    capysym_numtokens(1);
    static void (*const parts[])() = {gstate, functions, shadings, spaces};
    parts[PART]();
}
