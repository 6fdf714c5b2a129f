// One function per thing a document can contain; all go through the public C API only.
// `v` seeds a few symbolic bytes so the content, not only the shape, is arbitrary.
#pragma once
#include "doc.hpp"
struct Sym { std::string t, b; };     // t: printable text bytes, b: arbitrary bytes
inline CapyPDF_TransparencyGroupId trgroup(D &d, bool props = true) {
    DC *t; CapyPDF_TransparencyGroupId id;
    OK(capy_transparency_group_new, d.g, 0, 0, 100, 50, &t);
    CapyPDF_TransparencyGroupProperties *p;
    OK(capy_transparency_group_properties_new, &p);
    OK(capy_transparency_group_properties_set_CS, p, CAPY_DEVICE_CS_RGB);
    OK(capy_transparency_group_properties_set_I, p, 1);
    OK(capy_transparency_group_properties_set_K, p, 0);
    if(props) OK(capy_dc_set_transparency_group_properties, t, p);
    capy_transparency_group_properties_destroy(p);
    OK(capy_dc_cmd_re, t, 0, 0, 10, 10);
    OK(capy_dc_cmd_f, t);
    OK(capy_generator_add_transparency_group, d.g, t, &id);
    OK(capy_dc_destroy, t);
    return id;
}
inline CapyPDF_FormXObjectId fxo(D &d) {
    DC *f; CapyPDF_FormXObjectId id;
    OK(capy_form_xobject_new, d.g, 0, 0, 20, 20, &f);
    OK(capy_dc_cmd_g, f, 0.5);
    OK(capy_dc_cmd_re, f, 0, 0, 10, 10);
    OK(capy_dc_cmd_f, f);
    OK(capy_generator_add_form_xobject, d.g, f, &id);
    OK(capy_dc_destroy, f);
    return id;
}
inline CapyPDF_EmbeddedFileId embed(D &d, const char *name, const std::string &content, const char *subtype = nullptr) {
    CapyPDF_EmbeddedFile *e; CapyPDF_EmbeddedFileId id;
    OK(capy_embedded_file_new, &e);
    OK(capy_embedded_file_set_contents, e, content.data(), (int32_t)content.size());
    OK(capy_embedded_file_set_pdf_name, e, name, -1);
    if(subtype) OK(capy_embedded_file_set_subtype, e, subtype, -1);
    OK(capy_generator_embed_file, d.g, e, &id);
    capy_embedded_file_destroy(e);
    return id;
}
inline CapyPDF_ShadingId shading2(D &d, CapyPDF_FunctionId f) {
    CapyPDF_Shading *s; CapyPDF_ShadingId id;
    OK(capy_type2_shading_new, CAPY_DEVICE_CS_RGB, 10, 50, 90, 50, f, &s);
    OK(capy_shading_set_extend, s, 1, 0);
    OK(capy_shading_set_domain, s, 0, 1);
    OK(capy_generator_add_shading, d.g, s, &id);
    capy_shading_destroy(s);
    return id;
}
inline CapyPDF_Destination *dest(int page) { CapyPDF_Destination *x; OK(capy_destination_new, &x); OK(capy_destination_set_page_fit, x, page); return x; }
inline CapyPDF_OutlineId outline(D &d, const char *title, int n, int page, const CapyPDF_OutlineId *parent = nullptr) {
    CapyPDF_Outline *o; CapyPDF_OutlineId id;
    OK(capy_outline_new, &o);
    OK(capy_outline_set_title, o, title, n);
    if(page >= 0) { auto *x = dest(page); OK(capy_outline_set_destination, o, x); capy_destination_destroy(x); }
    if(parent) OK(capy_outline_set_parent, o, *parent);
    OK(capy_generator_add_outline, d.g, o, &id);
    capy_outline_destroy(o);
    return id;
}
inline CapyPDF_FormFieldId field(D &d, CapyPDF_Form_Field_Type t, const char *T, const CapyPDF_FormFieldId *parent = nullptr, uint32_t ff = 0, const char *V = nullptr) {
    CapyPDF_FormField *f; CapyPDF_FormFieldId id;
    OK(capy_form_field_new, t, &f);
    OK(capy_form_field_set_T, f, T, -1);
    if(parent) OK(capy_form_field_set_parent, f, *parent);
    if(ff) OK(capy_form_field_set_Ff, f, ff);
    if(V) OK(capy_form_field_set_V, f, V, -1);
    OK(capy_generator_add_form_field, d.g, f, &id);
    capy_form_field_destroy(f);
    return id;
}
inline CapyPDF_Transition *transition() { CapyPDF_Transition *t; OK(capy_transition_new, &t); OK(capy_transition_set_S, t, CAPY_TR_BLINDS); OK(capy_transition_set_D, t, 1.5); OK(capy_transition_set_Dm, t, CAPY_TR_DIM_H); return t; }

// Features applied before the generator exists
enum { NPRE = 8 };
inline void pre_feature(D &d, int k, Sym &s) {
    switch(k) {
    case 0: break;
    case 1: OK(capy_document_properties_set_title, d.dp, s.t.data(), (int)s.t.size()); OK(capy_document_properties_set_author, d.dp, "J\xc3\xa4rvi", -1); break;
    case 2: OK(capy_document_properties_set_language, d.dp, "fi-FI", -1); OK(capy_document_properties_set_tagged, d.dp, 1); break;
    case 3: OK(capy_document_properties_set_creator, d.dp, s.t.data(), (int)s.t.size()); OK(capy_document_properties_set_page_layout, d.dp, CAPY_PAGE_LAYOUT_ONE_COLUMN); break;
    case 4: OK(capy_document_properties_set_page_mode, d.dp, CAPY_PAGE_MODE_OUTLINES); break;
    case 5: OK(capy_document_properties_set_metadata_xml, d.dp, "<?xpacket begin='' id=''?><x><pdf:Producer>CapyPDF</pdf:Producer></x>", -1); break;
    case 6: {
        CapyPDF_PageProperties *p; OK(capy_page_properties_new, &p);
        OK(capy_page_properties_set_pagebox, p, CAPY_BOX_MEDIA, 0, 0, 200, 100);
        OK(capy_page_properties_set_pagebox, p, CAPY_BOX_TRIM, 5, 5, 195, 95);
        CapyPDF_TransparencyGroupProperties *t; OK(capy_transparency_group_properties_new, &t);
        OK(capy_transparency_group_properties_set_CS, t, CAPY_DEVICE_CS_GRAY);
        OK(capy_page_properties_set_transparency_group_properties, p, t);
        OK(capy_document_properties_set_default_page_properties, d.dp, p);
        capy_page_properties_destroy(p);
        break;
    }
    case 7: OK(capy_document_properties_set_colorspace, d.dp, CAPY_DEVICE_CS_GRAY); break;
    }
}
enum { NFEAT = 46 };
inline void feature(D &d, DC *dc, int k, Sym &s) {
    Gen *g = d.g;
    switch(k) {
    case 0: OK(capy_dc_cmd_q, dc); OK(capy_dc_cmd_rg, dc, 1, 0, 0.25); OK(capy_dc_cmd_re, dc, 1, 2, 3, 4); OK(capy_dc_cmd_f, dc); OK(capy_dc_cmd_Q, dc); break;
    case 1: OK(capy_dc_cmd_Do_image, dc, addimage(g, raster(1, 1, 8, CAPY_IMAGE_CS_RGB, s.b + "ab"))); break;
    case 2: OK(capy_dc_cmd_Do_image, dc, addimage(g, raster(1, 1, 8, CAPY_IMAGE_CS_GRAY, s.b, 8, s.b))); break;
    case 3: OK(capy_dc_cmd_Do_image, dc, addimage(g, raster(8, 1, 1, CAPY_IMAGE_CS_GRAY, s.b), true)); break;
    case 4: { CapyPDF_GraphicsState *st; CapyPDF_GraphicsStateId id; OK(capy_graphics_state_new, &st); OK(capy_graphics_state_set_CA, st, 0.5); OK(capy_graphics_state_set_BM, st, CAPY_BM_MULTIPLY);
        OK(capy_generator_add_graphics_state, g, st, &id); OK(capy_dc_cmd_gs, dc, id); break; }
    case 5: { auto t = trgroup(d); OK(capy_dc_cmd_Do_trgroup, dc, t); break; }
    case 6: { auto t = trgroup(d); CapyPDF_SoftMask *m; CapyPDF_SoftMaskId mid; OK(capy_soft_mask_new, CAPY_SOFT_MASK_LUMINOSITY, t, &m); OK(capy_generator_add_soft_mask, g, m, &mid);
        CapyPDF_GraphicsState *st; CapyPDF_GraphicsStateId id; OK(capy_graphics_state_new, &st); OK(capy_graphics_state_set_SMask, st, mid); OK(capy_generator_add_graphics_state, g, st, &id); OK(capy_dc_cmd_gs, dc, id); break; }
    case 7: { auto f = fn2(g, rgb(0, 1, 0), rgb(1, 0, 1)); OK(capy_dc_cmd_sh, dc, shading2(d, f)); break; }
    case 8: { auto f = fn2(g, rgb(0, 1, 0), rgb(1, 0, 1)); auto f2 = fn2(g, rgb(0, 0, 0), rgb(1, 1, 1));
        double dom[2] = {0, 1}, b[1] = {0.5}, e[4] = {0, 1, 0, 1}; CapyPDF_FunctionId fs[2] = {f, f2}, f3; CapyPDF_Function *fn;
        OK(capy_type3_function_new, dom, 2, fs, 2, b, 1, e, 4, &fn); OK(capy_generator_add_function, g, fn, &f3); OK(capy_dc_cmd_sh, dc, shading2(d, f3)); break; }
    case 9: { auto f = fn2(g, rgb(0, 1, 0), rgb(1, 0, 1)); double co[6] = {10, 10, 1, 20, 20, 9}; CapyPDF_Shading *sh; CapyPDF_ShadingId id; OK(capy_type3_shading_new, CAPY_DEVICE_CS_RGB, co, f, &sh);
        OK(capy_shading_set_extend, sh, 0, 1); OK(capy_generator_add_shading, g, sh, &id); OK(capy_dc_cmd_sh, dc, id); break; }
    case 10: { CapyPDF_Shading *sh; CapyPDF_ShadingId id; OK(capy_type4_shading_new, CAPY_DEVICE_CS_RGB, 0, 0, 100, 100, &sh); double co[6] = {50, 90, 10, 10, 90, 10}; const CapyPDF_Color *cs[3] = {rgb(1, 0, 0), rgb(0, 1, 0), rgb(0, 0, 1)};
        OK(capy_type4_shading_add_triangle, sh, co, cs); double c2[2] = {90, 90}; OK(capy_type4_shading_extend, sh, 2, c2, cs[0]); OK(capy_generator_add_shading, g, sh, &id); OK(capy_dc_cmd_sh, dc, id); break; }
    case 11: { CapyPDF_Shading *sh; CapyPDF_ShadingId id; OK(capy_type6_shading_new, CAPY_DEVICE_CS_RGB, 0, 0, 100, 100, &sh); double co[24]; for(int i = 0; i < 24; i++) co[i] = 4 * i; const CapyPDF_Color *cs[4] = {rgb(1, 0, 0), rgb(0, 1, 0), rgb(0, 0, 1), rgb(0, 0, 0)};
        OK(capy_type6_shading_add_patch, sh, co, cs); OK(capy_generator_add_shading, g, sh, &id); OK(capy_dc_cmd_sh, dc, id); break; }
    case 12: { auto f = fn2(g, rgb(0, 1, 0), rgb(1, 0, 1)); CapyPDF_ShadingPattern *sp; CapyPDF_PatternId id; OK(capy_shading_pattern_new, shading2(d, f), &sp); OK(capy_shading_pattern_set_matrix, sp, 1, 0, 0, 1, 2, 3); OK(capy_generator_add_shading_pattern, g, sp, &id);
        CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_pattern, c, id); OK(capy_dc_set_nonstroke, dc, c); break; }
    case 13: { DC *t; OK(capy_tiling_pattern_context_new, g, &t, 0, 0, 10, 10); OK(capy_dc_cmd_rg, t, 0, 1, 0); OK(capy_dc_cmd_re, t, 1, 1, 2, 2); OK(capy_dc_cmd_f, t); CapyPDF_PatternId id; OK(capy_generator_add_tiling_pattern, g, t, &id); capy_dc_destroy(t);
        CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_pattern, c, id); OK(capy_dc_set_stroke, dc, c); break; }
    case 14: { fxo(d); break; }
    case 15: { auto o = ocg(g, "layer"); OK(capy_dc_cmd_BDC_ocg, dc, o); OK(capy_dc_cmd_EMC, dc); break; }
    case 16: { auto p = sitem(g, CAPY_STRUCTURE_TYPE_DOCUMENT); auto c = sitem(g, CAPY_STRUCTURE_TYPE_P, &p); OK(capy_dc_cmd_BDC_builtin, dc, c, nullptr); OK(capy_dc_cmd_EMC, dc); break; }
    case 17: { CapyPDF_RoleId r; std::string n = "Role" + s.t; OK(capy_generator_add_rolemap_entry, g, n.data(), (int)n.size(), CAPY_STRUCTURE_TYPE_SPAN, &r); CapyPDF_StructureItemId id; OK(capy_generator_add_custom_structure_item, g, r, nullptr, nullptr, &id); OK(capy_dc_cmd_BDC_builtin, dc, id, nullptr); OK(capy_dc_cmd_EMC, dc); break; }
    case 18: { CapyPDF_Annotation *a; OK(capy_text_annotation_new, s.t.data(), (int)s.t.size(), &a); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 19: { CapyPDF_Annotation *a; OK(capy_link_annotation_new, &a); auto *x = dest(0); OK(capy_annotation_set_destination, a, x); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 20: { CapyPDF_Annotation *a; OK(capy_link_annotation_new, &a); std::string u = "http://x.y/" + s.t; OK(capy_annotation_set_uri, a, u.data(), (int)u.size()); OK(capy_annotation_set_flags, a, CAPY_ANNOTATION_FLAG_PRINT); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 21: { CapyPDF_Annotation *a; OK(capy_line_annotation_new, s.t.data(), (int)s.t.size(), 1, 2, 3, 4, &a); OK(capy_annotation_set_line_leader, a, 1, 2); OK(capy_annotation_set_line_endings, a, CAPY_LINE_ANNOTATION_END_CIRCLE, CAPY_LINE_ANNOTATION_END_SLASH); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 22: { CapyPDF_Annotation *a; OK(capy_file_attachment_annotation_new, embed(d, "att.txt", s.b), &a); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 23: { CapyPDF_Annotation *a; OK(capy_printers_mark_annotation_new, fxo(d), &a); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 24: { env::put("/m/model.u3d", s.b + "data"); CapyPDF_3DStream *st; CapyPDF_3DStreamId id; OK(capy_3d_stream_new, "/m/model.u3d", CAPY_3D_UDF, &st); OK(capy_generator_add_3d_stream, g, st, &id); CapyPDF_Annotation *a; OK(capy_3d_annotation_new, &a); OK(capy_annotation_set_3d_stream, a, id); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 25: { auto f = field(d, CAPY_FORM_FIELD_TYPE_BTN, "chk"); auto on = fxo(d), off = fxo(d); CapyPDF_Annotation *a; OK(capy_widget_annotation_new, &a); OK(capy_annotation_set_parent_field, a, f); OK(capy_annotation_set_widget_button_appearance, a, on, off, "Yes", -1); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 26: { auto f = field(d, CAPY_FORM_FIELD_TYPE_TX, "txt", nullptr, CAPY_FFIELD_REQUIRED, "value"); CapyPDF_Annotation *a; OK(capy_widget_annotation_new, &a); OK(capy_annotation_set_parent_field, a, f); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    case 27: { outline(d, s.t.data(), (int)s.t.size(), 0); break; }
    case 28: { auto o = outline(d, "top", -1, 0); auto p = outline(d, "kid", -1, 0, &o); outline(d, "grandkid", -1, -1, &p); outline(d, "kid2", -1, 0, &o); break; }
    case 29: { embed(d, "file.bin", s.b); break; }
    case 30: { embed(d, "second.bin", s.b + s.b, "text/plain"); break; }
    case 31: { CapyPDF_Page_Label_Number_Style st = CAPY_PAGE_LABEL_NUMBER_STYLE_ROMAN_LOWER; uint32_t n = 3; OK(capy_generator_add_page_labeling, g, 0, &st, s.t.data(), (int)s.t.size(), &n); break; }
    case 32: { CapyPDF_SeparationId id; double dom[2] = {0, 1}, ran[8] = {0, 1, 0, 1, 0, 1, 0, 1}; CapyPDF_Function *fo; CapyPDF_FunctionId f; OK(capy_type4_function_new, dom, 2, ran, 8, "{dup 0 exch dup 0.5 mul exch 0 exch}", -1, &fo); OK(capy_generator_add_function, g, fo, &f); OK(capy_generator_add_separation, g, "Spot", -1, CAPY_DEVICE_CS_CMYK, f, &id); CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_separation, c, id, 0.5); OK(capy_dc_set_nonstroke, dc, c); break; }
    case 33: { CapyPDF_LabColorSpaceId id; OK(capy_generator_add_lab_colorspace, g, 0.9, 1, 1.1, -100, 100, -90, 90, &id); CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_lab, c, id, 50, 1, 2); OK(capy_dc_set_nonstroke, dc, c); break; }
    case 34: { auto *t = transition(); OK(capy_dc_set_page_transition, dc, t); break; }
    case 35: { CapyPDF_OptionalContentGroupId os[2] = {ocg(g, "a"), ocg(g, "b")}; auto *t = transition(); for(auto &o : os) { OK(capy_dc_cmd_BDC_ocg, dc, o); OK(capy_dc_cmd_EMC, dc); } OK(capy_dc_add_simple_navigation, dc, os, 2, t); break; }
    case 36: { CapyPDF_PageProperties *p; OK(capy_page_properties_new, &p); OK(capy_page_properties_set_pagebox, p, CAPY_BOX_CROP, 1, 2, 30, 40); OK(capy_dc_set_custom_page_properties, dc, p); break; }
    case 37: { CapyPDF_Viewport *vp; OK(capy_viewport_new, 0, 0, 50, 50, &vp); CapyPDF_Measure *m; OK(capy_measure_new, &m); CapyPDF_NumberFormat *nf; OK(capy_number_format_new, "mm", -1, 2.0, &nf); OK(capy_measure_append_X, m, nf); OK(capy_measure_append_D, m, nf); OK(capy_measure_append_A, m, nf); OK(capy_viewport_set_measure, vp, m); OK(capy_dc_append_viewport, dc, vp); break; }
    case 38: { embed(d, "coll.txt", s.b); CapyPDF_Collection *c; OK(capy_collection_new, &c); CapyPDF_CollectionSchema *sc; OK(capy_collection_schema_new, &sc); CapyPDF_CollectionField *f; OK(capy_collection_field_new, CAPY_COLLECTION_SUB_F, "Name", -1, &f); OK(capy_collection_field_set_O, f, 1);
        OK(capy_collection_schema_add_entry, sc, "fn", -1, f); OK(capy_collection_set_schema, c, sc); OK(capy_collection_set_view, c, CAPY_COLLECTION_T); OK(capy_generator_set_collection, g, c); break; }
    case 39: { double dom[2] = {0, 1}, ran[6] = {0, 1, 0, 1, 0, 1}; CapyPDF_Function *f; CapyPDF_FunctionId id; OK(capy_type4_function_new, dom, 2, ran, 6, "{dup dup}", -1, &f); OK(capy_generator_add_function, g, f, &id); break; }
    case 40: { CapyPDF_GraphicsState *st; CapyPDF_GraphicsStateId id; OK(capy_graphics_state_new, &st); CapyPDF_Halftone *h; OK(capy_halftone_new, &h); OK(capy_halftone_set_type1, h, 60, 45, CAPY_HT_FUNC_LINE); OK(capy_graphics_state_set_HT, st, h); OK(capy_graphics_state_set_FL, st, 1); OK(capy_graphics_state_set_SM, st, 0.5); OK(capy_graphics_state_set_TK, st, 1); OK(capy_generator_add_graphics_state, g, st, &id); OK(capy_dc_cmd_gs, dc, id); break; }
    case 41: { DC *p2 = d.page(); OK(capy_dc_cmd_n, p2); d.add(p2); capy_dc_destroy(p2); break; }
    case 42: { auto i1 = raster(2, 1, 8, CAPY_IMAGE_CS_CMYK, s.b + "abcdefg"); OK(capy_dc_cmd_Do_image, dc, addimage(g, i1, false, CAPY_INTERPOLATION_SMOOTH)); break; }
    case 43: { OK(capy_dc_cmd_BMC, dc, "Artifact"); OK(capy_dc_cmd_EMC, dc); break; }
    case 44: { CapyPDF_BDCTags *t; OK(capy_bdc_tags_new, &t); OK(capy_bdc_tags_add_tag, t, "Key", -1, "value", -1); OK(capy_dc_cmd_BDC_testing, dc, "Span", -1, t); OK(capy_dc_cmd_EMC, dc); break; }
    case 45: { auto par = field(d, CAPY_FORM_FIELD_TYPE_TX, "parent"); auto kid = field(d, CAPY_FORM_FIELD_TYPE_TX, "kid", &par); CapyPDF_Annotation *a; OK(capy_widget_annotation_new, &a); OK(capy_annotation_set_parent_field, a, kid); OK(capy_dc_annotate, dc, annot(g, a)); break; }
    }
}
