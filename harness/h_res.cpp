// C24: whatever a content stream names is defined in its own resource dictionary, as the kind of object the operator needs, and is the object the caller chose.
#include "features.hpp"
#include "content.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static O G(O o, const char *k) { return d->out.get(o, k); }
enum Use { U_IMG, U_TRG, U_GS, U_SH, U_PATS, U_PATN, U_SEPS, U_SEPN, U_ICC, U_LAB, U_OCG, U_TXGS, U_TXCOL, U_CONV, NUSE };
static CapyPDF_FunctionId fn;
static std::string prof[4];
struct Used { int u; int m; };
// a new object with marker m, used in the context
static void use(DC *dc, int u, int m) {
    switch(u) {
    case U_IMG: OK(capy_dc_cmd_Do_image, dc, addimage(g, raster(m, 1, 8, CAPY_IMAGE_CS_GRAY, std::string(m, 'x')))); break;
    case U_TRG: { DC *t; CapyPDF_TransparencyGroupId x; OK(capy_transparency_group_new, g, 0, 0, m, 9, &t); OK(capy_dc_cmd_n, t); OK(capy_generator_add_transparency_group, g, t, &x); OK(capy_dc_destroy, t); OK(capy_dc_cmd_Do_trgroup, dc, x); break; }
    case U_GS: case U_TXGS: { CapyPDF_GraphicsState *s; CapyPDF_GraphicsStateId x; OK(capy_graphics_state_new, &s); OK(capy_graphics_state_set_FL, s, m); OK(capy_generator_add_graphics_state, g, s, &x); OK(capy_graphics_state_destroy, s);
        if(u == U_GS) OK(capy_dc_cmd_gs, dc, x); else { CapyPDF_Text *t; OK(capy_dc_text_new, dc, &t); OK(capy_text_cmd_gs, t, x); OK(capy_dc_render_text_obj, dc, t); OK(capy_text_destroy, t); } break; }
    case U_SH: { CapyPDF_Shading *s; CapyPDF_ShadingId x; OK(capy_type2_shading_new, CAPY_DEVICE_CS_RGB, m, 0, 1, 1, fn, &s); OK(capy_generator_add_shading, g, s, &x); OK(capy_shading_destroy, s); OK(capy_dc_cmd_sh, dc, x); break; }
    case U_PATS: { CapyPDF_Shading *s; CapyPDF_ShadingId sx; OK(capy_type2_shading_new, CAPY_DEVICE_CS_RGB, m, 0, 1, 1, fn, &s); OK(capy_generator_add_shading, g, s, &sx); CapyPDF_ShadingPattern *sp; CapyPDF_PatternId x; OK(capy_shading_pattern_new, sx, &sp); OK(capy_shading_pattern_set_matrix, sp, 1, 0, 0, 1, m, 0); OK(capy_generator_add_shading_pattern, g, sp, &x);
        CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_pattern, c, x); OK(capy_dc_set_stroke, dc, c); break; }
    case U_PATN: { DC *t; OK(capy_tiling_pattern_context_new, g, &t, 0, 0, m, 10); OK(capy_dc_cmd_n, t); CapyPDF_PatternId x; OK(capy_generator_add_tiling_pattern, g, t, &x); OK(capy_dc_destroy, t); CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_pattern, c, x); OK(capy_dc_set_nonstroke, dc, c); break; }
    case U_SEPS: case U_SEPN: { double dom[2] = {0, 1}, ran[6] = {0, 1, 0, 1, 0, 1}; CapyPDF_Function *fo; CapyPDF_FunctionId f; OK(capy_type4_function_new, dom, 2, ran, 6, "{dup dup}", -1, &fo); OK(capy_generator_add_function, g, fo, &f); std::string nm = std::string("sep") + char('0' + m); CapyPDF_SeparationId x; OK(capy_generator_add_separation, g, nm.c_str(), -1, CAPY_DEVICE_CS_RGB, f, &x);
        CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_separation, c, x, 0.5); if(u == U_SEPS) OK(capy_dc_set_stroke, dc, c); else OK(capy_dc_set_nonstroke, dc, c); break; }
    case U_ICC: { CapyPDF_IccColorSpaceId x; OK(capy_generator_add_icc_profile, g, prof[m].data(), prof[m].size(), 1, &x); double v = 0.25; CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_icc, c, x, &v, 1); OK(capy_dc_set_stroke, dc, c); break; }
    case U_LAB: case U_TXCOL: { CapyPDF_LabColorSpaceId x; OK(capy_generator_add_lab_colorspace, g, m, 1, 1, -100, 100, -90, 90, &x); CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_lab, c, x, 50, 1, 2);
        if(u == U_LAB) OK(capy_dc_set_nonstroke, dc, c); else { CapyPDF_Text *t; OK(capy_dc_text_new, dc, &t); OK(capy_text_set_stroke, t, c); OK(capy_dc_render_text_obj, dc, t); OK(capy_text_destroy, t); } break; }
    case U_OCG: { char nm[3] = {'o', (char)('0' + m), 0}; OK(capy_dc_cmd_BDC_ocg, dc, ocg(g, nm)); OK(capy_dc_cmd_EMC, dc); break; }
    case U_CONV: { CapyPDF_Color *c = rgb(m / 4.0, 0, 0); OK(capy_dc_set_stroke, dc, c); break; }
    }
}
static bool num(O o, double v) { return o && o->num() && content::is_num(*o, v); }
static bool last_digit(O o, int m) { return o && (o->k == pdf::Str || o->k == pdf::Name) && !o->s.empty() && o->s.back() == '0' + m; }
// every name used resolves; collects (use, marker) in order
static std::vector<Used> walk(const std::string &cs, O res) {
    std::vector<Used> r;
    std::string space[2];
    bool text = false;
    for(auto &o : content::parse(cs)) {
        auto in = [&](const char *cat) { O c = G(res, cat); O x = c ? c->get(o.args[0].s.c_str()) : nullptr; C(x, "resource-defined"); return d->out.deref(x); };
        auto stroke = [&](const std::string &op) { return op == "CS" || op == "SCN"; };
        if(o.op == "BT") text = true;
        else if(o.op == "ET") text = false;
        else if(o.op == "Do") {
            O x = in("XObject");
            C(x && x->name_is("Type", "XObject"), "xobject");
            if(x->name_is("Subtype", "Image")) { C(num(G(x, "Width"), G(x, "Width")->i), "image"); r.push_back({U_IMG, (int)G(x, "Width")->i}); }
            else { C(x->name_is("Subtype", "Form"), "xobject"); O b = G(x, "BBox"); C(b && b->a.size() == 4, "form-BBox"); r.push_back({U_TRG, (int)b->a[2].r}); }
        } else if(o.op == "gs") { O x = in("ExtGState"); C(x && x->k == pdf::Dict && x->name_is("Type", "ExtGState") && G(x, "FL"), "graphics-state"); r.push_back({text ? U_TXGS : U_GS, (int)G(x, "FL")->r}); }
        else if(o.op == "sh") { O x = in("Shading"); C(x && x->k == pdf::Dict && x->has("ShadingType") && G(x, "Coords"), "shading"); r.push_back({U_SH, (int)G(x, "Coords")->a[0].r}); }
        else if(o.op == "CS" || o.op == "cs") {
            std::string &s = space[stroke(o.op)];
            s = o.args[0].s;
            if(s == "Pattern" || s.substr(0, 6) == "Device") continue;
            O x = in("ColorSpace");
            C(x && x->k == pdf::Array && x->a.size() >= 2 && x->a[0].k == pdf::Name, "color-space");
            if(x->a[0].is("Separation")) { r.push_back({stroke(o.op) ? U_SEPS : U_SEPN, x->a[1].s.back() - '0'}); s = "1"; }
            else if(x->a[0].is("Lab")) { O p = d->out.deref(&x->a[1]); O w = G(p, "WhitePoint"); C(w && w->a.size() == 3, "lab"); r.push_back({text ? U_TXCOL : U_LAB, (int)w->a[0].r}); s = "3"; }
            else if(x->a[0].is("ICCBased")) { O p = d->out.deref(&x->a[1]); C(p && G(p, "N") && G(p, "N")->i == 1, "icc"); int no = d->out.objnum(p); std::string data; C(d->out.content(no, data), "icc-stream"); r.push_back({U_ICC, data == prof[1] ? 1 : data == prof[2] ? 2 : data == prof[3] ? 3 : 0}); s = "1"; }
            else capysym_fail("unknown-color-space");
        } else if(o.op == "SCN" || o.op == "scn") {
            std::string &s = space[stroke(o.op)];
            C(!s.empty(), "color-without-space");
            if(o.args.back().k == pdf::Name) {
                C(s == "Pattern" && o.args.size() == 1, "pattern-without-pattern-space");
                O x = in("Pattern");
                C(x && x->name_is("Type", "Pattern") && G(x, "PatternType"), "pattern");
                if(num(G(x, "PatternType"), 2)) { O mt = G(x, "Matrix"); C(mt && mt->a.size() == 6 && G(x, "Shading"), "shading-pattern"); C((int)G(G(x, "Shading"), "Coords")->a[0].r == (int)mt->a[4].r, "shading-pattern-shading"); r.push_back({stroke(o.op) ? U_PATS : U_PATN, (int)mt->a[4].r}); }
                else { O b = G(x, "BBox"); C(b && b->a.size() == 4 && num(G(x, "XStep"), b->a[2].r), "tiling-pattern"); r.push_back({stroke(o.op) ? U_PATS : U_PATN, (int)b->a[2].r}); }
            } else C(s.size() == 1 && (int)o.args.size() == s[0] - '0', "color-components");
        } else if(o.op == "BDC" && o.args[1].k == pdf::Name) { O c = G(res, "Properties"); O x = c ? c->get(o.args[1].s.c_str()) : nullptr; C(x && o.args[0].is("OC"), "resource-defined"); x = d->out.deref(x); C(x && x->name_is("Type", "OCG"), "ocg"); r.push_back({U_OCG, x->get("Name")->s.back() - '0'}); }
        else if(o.op == "Tf") { O x = in("Font"); C(x && x->name_is("Type", "Font"), "font"); }
        else if(o.op == "RG") r.push_back({U_CONV, (int)(o.args[0].r * 4)});
    }
    return r;
}
extern "C" void harness(void) {
    D dd; d = &dd;
    for(int i = 1; i < 4; i++) prof[i] = icc_gray(1.0 + i / 4.0);
    d->open();
    g = d->g;
    fn = fn2(g, rgb(0, 1, 0), rgb(1, 0, 1));
    int kind = capysym_choice("context", 4), a = capysym_choice("first", NUSE), b = capysym_choice("second", NUSE), mid = capysym_choice("between", 3);
    if(mid && (a % 3 != b % 3)) capysym_assume(0);
    DC *pg = d->page(), *dc;
    if(kind == 0) dc = pg;
    else if(kind == 1) OK(capy_form_xobject_new, g, 0, 0, 44, 50, &dc);
    else if(kind == 2) OK(capy_transparency_group_new, g, 0, 0, 44, 50, &dc);
    else OK(capy_tiling_pattern_context_new, g, &dc, 0, 0, 44, 50);
    use(dc, a, 1);
    if(mid == 1) { DC *other = d->page(); use(other, b, 3); d->add(other); }      // another context's resources in between
    if(mid == 2) { C(capy_dc_cmd_gs(dc, CapyPDF_GraphicsStateId{99}) != 0, "bad-gs"); C(capy_dc_cmd_sh(dc, CapyPDF_ShadingId{99}) != 0, "bad-sh"); C(capy_dc_cmd_Do_image(dc, CapyPDF_ImageId{99}) != 0, "bad-image"); C(capy_dc_cmd_BDC_ocg(dc, CapyPDF_OptionalContentGroupId{99}) != 0, "bad-ocg"); }
    use(dc, b, 2);
    std::vector<Used> want = {{a, 1}, {b, 2}};
    CapyPDF_FormXObjectId fid; CapyPDF_TransparencyGroupId tid; CapyPDF_PatternId pid;
    if(kind == 1) { OK(capy_generator_add_form_xobject, g, dc, &fid); CapyPDF_Annotation *an; OK(capy_printers_mark_annotation_new, fid, &an); OK(capy_dc_annotate, pg, annot(g, an)); }
    if(kind == 2) { OK(capy_generator_add_transparency_group, g, dc, &tid); OK(capy_dc_cmd_Do_trgroup, pg, tid); }
    if(kind == 3) { OK(capy_generator_add_tiling_pattern, g, dc, &pid); CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_pattern, c, pid); OK(capy_dc_set_stroke, pg, c); }
    d->add(pg);
    d->finish();
    O o = d->pg(mid == 1 ? 1 : 0);
    std::string cs;
    if(kind == 0) cs = d->contents(o);
    else {
        O page = o; o = nullptr;
        if(kind == 1) o = G(G(d->out.deref(&G(page, "Annots")->a[0]), "AP"), "N");
        else for(auto &e : d->out.x) { O bx = e.o.get("BBox"); if(bx && bx->k == pdf::Array && bx->a.size() == 4 && num(&bx->a[2], 44)) o = &e.o; }
        C(o && G(o, "BBox") && num(&G(o, "BBox")->a[2], 44), "context-object");
        C(d->out.content(d->out.objnum(o), cs), "context-stream");
        walk(d->contents(page), G(page, "Resources"));
    }
    O res = G(o, "Resources");
    C(res && res->k == pdf::Dict, "resources");
    auto got = walk(cs, res);
    C(got.size() == want.size(), "uses");
    for(size_t i = 0; i < want.size(); i++) C(got[i].u == want[i].u && got[i].m == want[i].m, "resource-is-the-chosen-object");
    capysym_reach("done");
}
