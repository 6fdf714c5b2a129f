// C06: an id is accepted exactly when it names an existing object of the expected kind, and the file then refers to that object.
#include "features.hpp"
#include "content.hpp"
enum Kind { IMG, TRG, GS, SH, OCG, SI, PAT, ICC, SEP, LAB, ANN, OUTL, FLD, FN, FXO, EMB, D3, ROLE, SM, NKIND };
static std::vector<int32_t> ids[NKIND], sep_functions;
static std::string profiles[4];
static D *d;
static Gen *g;
static int marker(int k) { return (int)ids[k].size() + 1; }       // of the object about to be created: 1, 2, 3
static CapyPDF_FunctionId fid(int i) { return CapyPDF_FunctionId{ids[FN][i]}; }
static void make(int k) {
    int m = marker(k);
    int32_t id = -1;
    std::string nm = std::string("m") + char('0' + m);
    switch(k) {
    case IMG: id = addimage(g, raster(m, 1, 8, CAPY_IMAGE_CS_GRAY, std::string(m, 'x'))).id; break;
    case TRG: { DC *t; CapyPDF_TransparencyGroupId x; OK(capy_transparency_group_new, g, 0, 0, m, 9, &t); OK(capy_generator_add_transparency_group, g, t, &x); OK(capy_dc_destroy, t); id = x.id; break; }
    case FXO: { DC *t; CapyPDF_FormXObjectId x; OK(capy_form_xobject_new, g, 0, 0, m, 8, &t); OK(capy_generator_add_form_xobject, g, t, &x); OK(capy_dc_destroy, t); id = x.id; break; }
    case GS: { CapyPDF_GraphicsState *s; CapyPDF_GraphicsStateId x; OK(capy_graphics_state_new, &s); OK(capy_graphics_state_set_FL, s, m); OK(capy_generator_add_graphics_state, g, s, &x); OK(capy_graphics_state_destroy, s); id = x.id; break; }
    case FN: { double dom[2] = {0, 1}, ran[6] = {0, 1, 0, 1, 0, 1}; CapyPDF_Function *f; CapyPDF_FunctionId x; std::string code = "{dup dup " + nm.substr(1) + " pop}"; OK(capy_type4_function_new, dom, 2, ran, 6, code.c_str(), -1, &f); OK(capy_generator_add_function, g, f, &x); OK(capy_function_destroy, f); id = x.id; break; }
    case SH: { CapyPDF_Shading *s; CapyPDF_ShadingId x; OK(capy_type2_shading_new, CAPY_DEVICE_CS_RGB, m, 0, 1, 1, fid(0), &s); OK(capy_generator_add_shading, g, s, &x); OK(capy_shading_destroy, s); id = x.id; break; }
    case OCG: id = ocg(g, nm.c_str()).id; break;
    case SI: { static const CapyPDF_Structure_Type t[] = {CAPY_STRUCTURE_TYPE_DOCUMENT, CAPY_STRUCTURE_TYPE_SECT, CAPY_STRUCTURE_TYPE_P}; CapyPDF_StructureItemId p{ids[SI].empty() ? 0 : ids[SI][0]}; id = sitem(g, t[m - 1], ids[SI].empty() ? nullptr : &p).id; break; }
    case PAT: { CapyPDF_ShadingPattern *sp; CapyPDF_PatternId x; OK(capy_shading_pattern_new, CapyPDF_ShadingId{ids[SH][0]}, &sp); OK(capy_shading_pattern_set_matrix, sp, 1, 0, 0, 1, m, 0); OK(capy_generator_add_shading_pattern, g, sp, &x); OK(capy_shading_pattern_destroy, sp); id = x.id; break; }
    case ICC: { std::string p = icc_gray(1.0 + m / 4.0); profiles[m] = p; CapyPDF_IccColorSpaceId x; OK(capy_generator_add_icc_profile, g, p.data(), p.size(), 1, &x); id = x.id; break; }
    case SEP: { double dom[2] = {0, 1}, ran[8] = {0, 1, 0, 1, 0, 1, 0, 1}; CapyPDF_Function *fo; CapyPDF_FunctionId f; OK(capy_type4_function_new, dom, 2, ran, 8, "{dup 0 exch dup 0.5 mul exch 0 exch}", -1, &fo); OK(capy_generator_add_function, g, fo, &f); CapyPDF_SeparationId x; OK(capy_generator_add_separation, g, nm.c_str(), -1, CAPY_DEVICE_CS_CMYK, f, &x); OK(capy_function_destroy, fo); sep_functions.push_back(f.id); id = x.id; break; }
    case LAB: { CapyPDF_LabColorSpaceId x; OK(capy_generator_add_lab_colorspace, g, m, 1, 1, -100, 100, -90, 90, &x); id = x.id; break; }
    case ANN: { CapyPDF_Annotation *a; OK(capy_text_annotation_new, nm.c_str(), -1, &a); id = annot(g, a).id; break; }
    case OUTL: id = outline(*d, nm.c_str(), -1, -1).id; break;
    case FLD: id = field(*d, CAPY_FORM_FIELD_TYPE_BTN, nm.c_str()).id; break;
    case EMB: id = embed(*d, nm.c_str(), nm).id; break;
    case D3: { std::string f = "/m/" + nm + ".u3d"; env::put(f.c_str(), nm); CapyPDF_3DStream *st; CapyPDF_3DStreamId x; OK(capy_3d_stream_new, f.c_str(), CAPY_3D_UDF, &st); OK(capy_generator_add_3d_stream, g, st, &x); OK(capy_3d_stream_destroy, st); id = x.id; break; }
    case ROLE: { CapyPDF_RoleId x; OK(capy_generator_add_rolemap_entry, g, nm.c_str(), -1, CAPY_STRUCTURE_TYPE_SPAN, &x); id = x.id; break; }
    case SM: { CapyPDF_SoftMask *s; CapyPDF_SoftMaskId x; OK(capy_soft_mask_new, m == 2 ? CAPY_SOFT_MASK_ALPHA : CAPY_SOFT_MASK_LUMINOSITY, CapyPDF_TransparencyGroupId{ids[TRG][0]}, &s); OK(capy_generator_add_soft_mask, g, s, &x); OK(capy_soft_mask_destroy, s); id = x.id; break; }
    }
    for(int32_t o : ids[k]) C(o != id, "ids-distinct");
    ids[k].push_back(id);
}
static const int KIND[] = {IMG, TRG, GS, GS, SH, OCG, SI, SI, PAT, PAT, PAT, PAT, ICC, ICC, ICC, ICC, SEP, SEP, SEP, SEP, LAB, LAB, LAB, LAB, ANN, OUTL, FLD, SI, SI, ROLE, FN, FN, SH, TRG, SM, EMB, FXO, D3, FLD, FXO, FXO, FN, OCG, FN};
enum { NSITE = sizeof KIND / sizeof *KIND };
static DC *dc;
static CapyPDF_Annotation *widget(int32_t on, int32_t off, int32_t fld) {
    CapyPDF_Annotation *a; OK(capy_widget_annotation_new, &a); OK(capy_annotation_set_parent_field, a, CapyPDF_FormFieldId{fld});
    OK(capy_annotation_set_widget_button_appearance, a, CapyPDF_FormXObjectId{on}, CapyPDF_FormXObjectId{off}, "Yes", -1);
    return a;
}
static int put(CapyPDF_Annotation *a) { OK(capy_annotation_set_rectangle, a, 10, 20, 30, 40); CapyPDF_AnnotationId id; int rc = capy_generator_add_annotation(g, a, &id); if(rc == 0) OK(capy_dc_annotate, dc, id); OK(capy_annotation_destroy, a); return rc; }
static int use(int s, int32_t id) {
    int rc = 0;
    switch(s) {
    case 0: return capy_dc_cmd_Do_image(dc, CapyPDF_ImageId{id});
    case 1: return capy_dc_cmd_Do_trgroup(dc, CapyPDF_TransparencyGroupId{id});
    case 2: return capy_dc_cmd_gs(dc, CapyPDF_GraphicsStateId{id});
    case 3: { CapyPDF_Text *t; OK(capy_dc_text_new, dc, &t); rc = capy_text_cmd_gs(t, CapyPDF_GraphicsStateId{id}); if(!rc) rc = capy_dc_render_text_obj(dc, t); OK(capy_text_destroy, t); return rc; }
    case 4: return capy_dc_cmd_sh(dc, CapyPDF_ShadingId{id});
    case 5: rc = capy_dc_cmd_BDC_ocg(dc, CapyPDF_OptionalContentGroupId{id}); if(!rc) OK(capy_dc_cmd_EMC, dc); return rc;
    case 6: rc = capy_dc_cmd_BDC_builtin(dc, CapyPDF_StructureItemId{id}, nullptr); if(!rc) OK(capy_dc_cmd_EMC, dc); return rc;
    case 7: { CapyPDF_Text *t; OK(capy_dc_text_new, dc, &t); rc = capy_text_cmd_BDC_builtin(t, CapyPDF_StructureItemId{id}); if(!rc) { OK(capy_text_cmd_EMC, t); rc = capy_dc_render_text_obj(dc, t); } OK(capy_text_destroy, t); return rc; }
    case 8: case 9: case 10: case 11: case 12: case 13: case 14: case 15: case 16: case 17: case 18: case 19: case 20: case 21: case 22: case 23: {
        CapyPDF_Color *c; OK(capy_color_new, &c);
        double v = 0.5;
        if(s < 12) rc = capy_color_set_pattern(c, CapyPDF_PatternId{id});
        else if(s < 16) rc = capy_color_set_icc(c, CapyPDF_IccColorSpaceId{id}, &v, 1);
        else if(s < 20) rc = capy_color_set_separation(c, CapyPDF_SeparationId{id}, 0.5);
        else rc = capy_color_set_lab(c, CapyPDF_LabColorSpaceId{id}, 50, 1, 2);
        int how = s & 3;
        if(!rc) {
            if(how == 0) rc = capy_dc_set_stroke(dc, c);
            else if(how == 1) rc = capy_dc_set_nonstroke(dc, c);
            else { CapyPDF_Text *t; OK(capy_dc_text_new, dc, &t); rc = how == 2 ? capy_text_set_stroke(t, c) : capy_text_set_nonstroke(t, c); if(!rc) rc = capy_dc_render_text_obj(dc, t); OK(capy_text_destroy, t); }
        }
        OK(capy_color_destroy, c);
        return rc; }
    case 24: return capy_dc_annotate(dc, CapyPDF_AnnotationId{id});
    case 25: { CapyPDF_Outline *o; CapyPDF_OutlineId x; OK(capy_outline_new, &o); OK(capy_outline_set_title, o, "subject", -1); rc = capy_outline_set_parent(o, CapyPDF_OutlineId{id}); if(!rc) rc = capy_generator_add_outline(g, o, &x); OK(capy_outline_destroy, o); return rc; }
    case 26: { CapyPDF_FormField *f; CapyPDF_FormFieldId x; OK(capy_form_field_new, CAPY_FORM_FIELD_TYPE_BTN, &f); OK(capy_form_field_set_T, f, "subject", -1); rc = capy_form_field_set_parent(f, CapyPDF_FormFieldId{id}); if(!rc) rc = capy_generator_add_form_field(g, f, &x); OK(capy_form_field_destroy, f);
        if(!rc) { CapyPDF_Annotation *a; OK(capy_widget_annotation_new, &a); OK(capy_annotation_set_parent_field, a, x); rc = put(a); } return rc; }
    case 27: { CapyPDF_StructureItemId p{id}, x; return capy_generator_add_structure_item(g, CAPY_STRUCTURE_TYPE_H1, &p, nullptr, &x); }
    case 28: { CapyPDF_StructureItemId p{id}, x; return capy_generator_add_custom_structure_item(g, CapyPDF_RoleId{ids[ROLE][0]}, &p, nullptr, &x); }
    case 29: { CapyPDF_StructureItemId p{ids[SI][0]}, x; return capy_generator_add_custom_structure_item(g, CapyPDF_RoleId{id}, &p, nullptr, &x); }
    case 30: case 31: { CapyPDF_Shading *sh; CapyPDF_ShadingId x; double co[6] = {77, 0, 1, 2, 3, 4}; if(s == 30) OK(capy_type2_shading_new, CAPY_DEVICE_CS_RGB, 77, 0, 1, 1, CapyPDF_FunctionId{id}, &sh); else OK(capy_type3_shading_new, CAPY_DEVICE_CS_RGB, co, CapyPDF_FunctionId{id}, &sh);
        rc = capy_generator_add_shading(g, sh, &x); OK(capy_shading_destroy, sh); if(!rc) OK(capy_dc_cmd_sh, dc, x); return rc; }
    case 32: { CapyPDF_ShadingPattern *sp; CapyPDF_PatternId x; OK(capy_shading_pattern_new, CapyPDF_ShadingId{id}, &sp); rc = capy_generator_add_shading_pattern(g, sp, &x); OK(capy_shading_pattern_destroy, sp); if(!rc) { CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_pattern, c, x); OK(capy_dc_set_stroke, dc, c); } return rc; }
    case 33: { CapyPDF_SoftMask *sm; CapyPDF_SoftMaskId x; OK(capy_soft_mask_new, CAPY_SOFT_MASK_ALPHA, CapyPDF_TransparencyGroupId{id}, &sm); rc = capy_generator_add_soft_mask(g, sm, &x); OK(capy_soft_mask_destroy, sm);
        if(!rc) { CapyPDF_GraphicsState *st; CapyPDF_GraphicsStateId y; OK(capy_graphics_state_new, &st); OK(capy_graphics_state_set_SMask, st, x); OK(capy_generator_add_graphics_state, g, st, &y); OK(capy_dc_cmd_gs, dc, y); } return rc; }
    case 34: { CapyPDF_GraphicsState *st; CapyPDF_GraphicsStateId y; OK(capy_graphics_state_new, &st); OK(capy_graphics_state_set_SMask, st, CapyPDF_SoftMaskId{id}); rc = capy_generator_add_graphics_state(g, st, &y); if(!rc) OK(capy_dc_cmd_gs, dc, y); return rc; }
    case 35: { CapyPDF_Annotation *a; OK(capy_file_attachment_annotation_new, CapyPDF_EmbeddedFileId{id}, &a); return put(a); }
    case 36: { CapyPDF_Annotation *a; OK(capy_printers_mark_annotation_new, CapyPDF_FormXObjectId{id}, &a); return put(a); }
    case 37: { CapyPDF_Annotation *a; OK(capy_3d_annotation_new, &a); OK(capy_annotation_set_3d_stream, a, CapyPDF_3DStreamId{id}); return put(a); }
    case 38: return put(widget(ids[FXO][0], ids[FXO][0], id));
    case 39: return put(widget(id, ids[FXO][0], ids[FLD][0]));
    case 40: return put(widget(ids[FXO][0], id, ids[FLD][0]));
    case 41: { double dom[2] = {0, 1}, bounds[1] = {0.5}, enc[4] = {0, 1, 0, 1}; CapyPDF_FunctionId fs[2] = {fid(0), CapyPDF_FunctionId{id}}; CapyPDF_Function *f; CapyPDF_FunctionId x; rc = capy_type3_function_new(dom, 2, fs, 2, bounds, 1, enc, 4, &f); if(rc) return rc; rc = capy_generator_add_function(g, f, &x); OK(capy_function_destroy, f); return rc; }
    case 42: { for(int32_t o : ids[OCG]) { OK(capy_dc_cmd_BDC_ocg, dc, CapyPDF_OptionalContentGroupId{o}); OK(capy_dc_cmd_EMC, dc); } CapyPDF_OptionalContentGroupId os[2] = {{ids[OCG][0]}, {id}}; auto *t = transition(); rc = capy_dc_add_simple_navigation(dc, os, 2, t); OK(capy_transition_destroy, t); return rc; }
    case 43: { CapyPDF_SeparationId x; rc = capy_generator_add_separation(g, "subject", -1, CAPY_DEVICE_CS_RGB, CapyPDF_FunctionId{id}, &x); if(!rc) { CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_separation, c, x, 0.5); OK(capy_dc_set_stroke, dc, c); } return rc; }
    }
    return -1;
}
// the object the written file refers to at this site
static const pdf::Obj *res(const pdf::Obj *page, const char *cat, const char *op) {
    auto ops = content::parse(d->contents(page));
    const pdf::Obj *r = nullptr;
    for(auto &o : ops) if(o.op == op) {
        std::string name;
        for(auto &a : o.args) if(a.k == pdf::Name) name = a.s;
        r = d->out.get(d->out.get(d->out.get(page, "Resources"), cat), name.c_str());
    }
    return r;
}
static const pdf::Obj *title_of(const char *key, const char *text) {
    for(auto &e : d->out.x) { auto *t = e.o.get(key); if(t && t->k == pdf::Str && (t->s == text || t->s == std::string("\xef\xbb\xbf") + text || t->s == std::string("\xfe\xff\0s\0u\0b\0j\0e\0c\0t", 16))) return &e.o; }
    return nullptr;
}
static bool str_is(const pdf::Obj *o, int m) { std::string n = std::string("m") + char('0' + m); return o && o->k == pdf::Str && (o->s == n || o->s == "\xef\xbb\xbf" + n || o->s == std::string("\xfe\xff\0m\0", 5) + n[1]); }
static bool num_at(const pdf::Obj *arr, size_t i, double v) { return arr && arr->k == pdf::Array && i < arr->a.size() && arr->a[i].num() && arr->a[i].r == v; }
static bool num_is(const pdf::Obj *o, double v) { return o && o->num() && (o->k == pdf::Int ? (double)o->i : o->r) == v; }
static bool names(int s, int m, const pdf::Obj *page) {
    auto G = [&](const pdf::Obj *o, const char *k) { return d->out.get(o, k); };
    static const char *stt[] = {"Document", "Sect", "P"};
    switch(s) {
    case 0: return num_is(G(res(page, "XObject", "Do"), "Width"), m);
    case 1: return num_at(G(res(page, "XObject", "Do"), "BBox"), 2, m) && num_at(G(res(page, "XObject", "Do"), "BBox"), 3, 9);
    case 2: case 3: return num_is(G(res(page, "ExtGState", "gs"), "FL"), m);
    case 4: return num_at(G(res(page, "Shading", "sh"), "Coords"), 0, m);
    case 5: return str_is(G(res(page, "Properties", "BDC"), "Name"), m);
    case 6: case 7: {
        const pdf::Obj *st = G(d->out.catalog(), "StructTreeRoot"), *nums = G(G(st, "ParentTree"), "Nums"), *key = page->get("StructParents");
        if(!nums || nums->k != pdf::Array || !key) return false;
        for(size_t i = 0; i + 1 < nums->a.size(); i += 2) if(nums->a[i].i == key->i) { auto *arr = d->out.deref(&nums->a[i + 1]); return arr && arr->k == pdf::Array && arr->a.size() == 1 && d->out.deref(&arr->a[0])->name_is("S", stt[m - 1]); }
        return false; }
    case 8: case 10: return num_at(G(res(page, "Pattern", "SCN"), "Matrix"), 4, m);
    case 9: case 11: return num_at(G(res(page, "Pattern", "scn"), "Matrix"), 4, m);
    case 12: case 13: case 14: case 15: { auto *cs = res(page, "ColorSpace", s & 1 ? "cs" : "CS"); if(!cs || cs->k != pdf::Array || cs->a.size() != 2 || !cs->a[0].is("ICCBased")) return false; std::string p; return d->out.content((int)cs->a[1].i, p) && p == profiles[m]; }
    case 16: case 17: case 18: case 19: { auto *cs = res(page, "ColorSpace", s & 1 ? "cs" : "CS"); return cs && cs->k == pdf::Array && cs->a.size() == 4 && cs->a[0].is("Separation") && cs->a[1].is(m == 1 ? "m1" : m == 2 ? "m2" : "m3"); }
    case 20: case 21: case 22: case 23: { auto *cs = res(page, "ColorSpace", s & 1 ? "cs" : "CS"); return cs && cs->k == pdf::Array && cs->a.size() == 2 && cs->a[0].is("Lab") && num_at(G(d->out.deref(&cs->a[1]), "WhitePoint"), 0, m); }
    case 24: { auto *a = G(page, "Annots"); return a && a->a.size() == 1 && str_is(G(d->out.deref(&a->a[0]), "Contents"), m); }
    case 25: return str_is(G(G(title_of("Title", "subject"), "Parent"), "Title"), m);
    case 26: return str_is(G(G(title_of("T", "subject"), "Parent"), "T"), m);
    case 27: for(auto &e : d->out.x) if(e.o.name_is("S", "H1")) return G(&e.o, "P") && G(&e.o, "P")->name_is("S", stt[m - 1]); return false;
    case 28: for(auto &e : d->out.x) if(e.o.name_is("S", "m1")) return G(&e.o, "P") && G(&e.o, "P")->name_is("S", stt[m - 1]); return false;
    case 29: for(auto &e : d->out.x) if(e.o.has("P") && e.o.name_is("S", m == 1 ? "m1" : m == 2 ? "m2" : "m3")) return true; return false;
    case 30: case 31: { auto *f = G(res(page, "Shading", "sh"), "Function"); std::string c; return f && d->out.content(d->out.objnum(f), c) && c.find(char('0' + m)) != std::string::npos; }
    case 32: return num_at(G(G(res(page, "Pattern", "SCN"), "Shading"), "Coords"), 0, m);
    case 33: return num_at(G(G(G(res(page, "ExtGState", "gs"), "SMask"), "G"), "BBox"), 2, m);
    case 34: return G(res(page, "ExtGState", "gs"), "SMask") && G(res(page, "ExtGState", "gs"), "SMask")->name_is("S", m == 2 ? "Alpha" : "Luminosity");
    case 35: case 36: case 37: case 38: case 39: case 40: {
        auto *as = G(page, "Annots"); if(!as || as->a.size() != 1) return false;
        auto *a = d->out.deref(&as->a[0]);
        if(s == 35) return str_is(G(G(a, "FS"), "UF"), m);
        if(s == 36) return num_at(G(G(G(a, "AP"), "N"), "BBox"), 2, m);
        if(s == 37) { auto *st = a->get("3DD"); std::string c; return st && st->k == pdf::Ref && d->out.content((int)st->i, c) && c == std::string("m") + char('0' + m); }
        if(s == 38) return str_is(G(G(a, "Parent"), "T"), m);
        auto *n = G(G(a, "AP"), "N");
        return num_at(G(G(n, s == 39 ? "Yes" : "Off"), "BBox"), 2, m); }
    case 41: for(auto &e : d->out.x) if(e.o.has("FunctionType") && e.o.get("FunctionType")->i == 3) { auto *fs = G(&e.o, "Functions"); std::string c; return fs && fs->a.size() == 2 && fs->a[1].k == pdf::Ref && d->out.content((int)fs->a[1].i, c) && c.find(char('0' + m)) != std::string::npos; } return false;
    case 42: { std::string want = std::string("m") + char('0' + m); bool found = false; for(auto &e : d->out.x) { auto *na = d->out.get(&e.o, "NA"); if(!na) continue; auto *st = d->out.get(na, "State"); if(st && st->k == pdf::Array) for(auto &x : st->a) if(x.k == pdf::Ref && str_is(G(d->out.deref(&x), "Name"), m)) found = true; } return found; }
    case 43: { auto *cs = res(page, "ColorSpace", "CS"); std::string c; return cs && cs->k == pdf::Array && cs->a.size() == 4 && cs->a[1].is("subject") && cs->a[3].k == pdf::Ref && d->out.content((int)cs->a[3].i, c) && c.find(char('0' + m)) != std::string::npos; }
    }
    return false;
}
extern "C" void harness(void) {
    // any two kinds have different numbers of objects in one of the three configurations
    int cfg = capysym_choice("counts", 3);
    D doc;
    d = &doc;
    doc.open();
    g = doc.g;
    int n[NKIND];
    for(int j = 0; j < NKIND; j++) n[j] = 1 + (cfg == 0 ? j % 3 : cfg == 1 ? j / 3 % 3 : j / 9 % 3);
    for(int i = 0; i < 3; i++) for(int j : {FN, IMG, TRG, FXO, GS, SH, OCG, SI, PAT, ICC, LAB, ANN, OUTL, FLD, EMB, D3, ROLE, SM}) if(i < n[j]) make(j);
    for(int i = 0; i < n[SEP]; i++) make(SEP);
    dc = doc.page();
    int s = capysym_choice("site", NSITE), k = KIND[s];
    int32_t id = (int32_t)capysym_sym("id", 32);
    bool valid = false;
    for(int32_t o : ids[k]) valid |= id == o;
    if(k == FN) for(int32_t o : sep_functions) capysym_assume(id != o);
    if(valid) id = (int32_t)capysym_pick((uint64_t)(int64_t)id);
    int rc = use(s, id);
    C((rc == 0) == valid, valid ? "accepted:known-id" : "rejected:unknown-id");
    if(s == 42 && rc == 0 && id == ids[OCG][0]) capysym_end();
    doc.add(dc);
    doc.finish();
    if(valid) {
        int m = 0;
        for(size_t i = 0; i < ids[k].size(); i++) if(capysym_pick(id == ids[k][i])) m = (int)i + 1;
        C(names(s, m, doc.pg(0)), "names-the-object");
        capysym_reach("accepted");
    } else capysym_reach("rejected");
}
