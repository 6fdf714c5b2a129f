// C08: enumeration, flag and boolean arguments.  Values of the enumeration are accepted and written as the PDF name or
// number they stand for; any other value is rejected by some call no later than the write, and then no file is written.
#include "features.hpp"
static D *d;
static Gen *g;
static DC *dc;
static const int MAXN = 64;
struct Site { const char *what; uint32_t n; const char *names[MAXN]; };
static const Site SITES[] = {
    {"page_layout", 6, {"SinglePage", "OneColumn", "TwoColumnLeft", "TwoColumnRight", "TwoPageLeft", "TwoPageRight"}},
    {"page_mode", 6, {"UseNone", "UseOutlines", "UseThumbs", "FullScreen", "UseOC", "UseAttachments"}},
    {"tagged", 2, {"false", "true"}},
    {"docprops_cs", 3, {}},
    {"device_profile_cs", 3, {}},
    {"pdfx", 12, {}},
    {"pdfa", 10, {}},
    {"pagebox", 5, {"MediaBox", "CropBox", "BleedBox", "TrimBox", "ArtBox"}},
    {"label_style", 5, {"D", "R", "r", "A", "a"}},
    {"structure_type", 47, {"Document", "DocumentFragment", "Part", "Sect", "Div", "Aside", "NonStruct", "P", "H", "H1", "H2", "H3", "H4", "H5", "H6", "H7", "Title", "FENote", "Sub", "Lbl", "Span", "Em", "Strong", "Link", "Annot", "Form", "Ruby", "RB", "RT", "RP", "Warichu", "WT", "WP", "L", "LI", "LBody", "Table", "TR", "TH", "TD", "THead", "TBody", "TFoot", "Caption", "Figure", "Formula", "Artifact"}},
    {"rolemap", 47, {"Document", "DocumentFragment", "Part", "Sect", "Div", "Aside", "NonStruct", "P", "H", "H1", "H2", "H3", "H4", "H5", "H6", "H7", "Title", "FENote", "Sub", "Lbl", "Span", "Em", "Strong", "Link", "Annot", "Form", "Ruby", "RB", "RT", "RP", "Warichu", "WT", "WP", "L", "LI", "LBody", "Table", "TR", "TH", "TD", "THead", "TBody", "TFoot", "Caption", "Figure", "Formula", "Artifact"}},
    {"transition_S", 12, {"Split", "Blinds", "Box", "Wipe", "Dissolve", "Glitter", "R", "Fly", "Push", "Cover", "Uncover", "Fade"}},
    {"transition_Dm", 2, {"H", "V"}},
    {"transition_M", 2, {"I", "O"}},
    {"transition_B", 2, {"false", "true"}},
    {"BM", 16, {"Normal", "Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight", "SoftLight", "Difference", "Exclusion", "Hue", "Saturation", "Color", "Luminosity"}},
    {"op", 2, {"false", "true"}},
    {"OP", 2, {"false", "true"}},
    {"OPM", 2, {"0", "1"}},
    {"AIS", 2, {"false", "true"}},
    {"TK", 2, {"false", "true"}},
    {"bpc", 3, {"OFF", "ON", "Default"}},
    {"group_CS", 3, {"DeviceRGB", "DeviceGray", "DeviceCMYK"}},
    {"group_I", 2, {"false", "true"}},
    {"group_K", 2, {"false", "true"}},
    {"image_cs", 3, {"DeviceRGB", "DeviceGray", "DeviceCMYK"}},
    {"image_compression", 2, {}},
    {"image_interpolate", 3, {"", "false", "true"}},
    {"image_mask", 2, {"", "true"}},
    {"convert_cs", 3, {"DeviceRGB", "DeviceGray", "DeviceCMYK"}},
    {"convert_ri", 4, {}},
    {"shading2_cs", 3, {"DeviceRGB", "DeviceGray", "DeviceCMYK"}},
    {"shading3_cs", 3, {"DeviceRGB", "DeviceGray", "DeviceCMYK"}},
    {"shading4_cs", 3, {"DeviceRGB", "DeviceGray", "DeviceCMYK"}},
    {"shading6_cs", 3, {"DeviceRGB", "DeviceGray", "DeviceCMYK"}},
    {"shading_extend0", 2, {"false", "true"}},
    {"shading_extend1", 2, {"false", "true"}},
    {"separation_cs", 3, {"DeviceRGB", "DeviceGray", "DeviceCMYK"}},
    {"annotation_flags", 1024, {}},
    {"line_ending0", 10, {"Square", "Circle", "Diamond", "OpenArrow", "ClosedArrow", "None", "Butt", "ROpenArrow", "RClosedArrow", "Slash"}},
    {"line_ending1", 10, {"Square", "Circle", "Diamond", "OpenArrow", "ClosedArrow", "None", "Butt", "ROpenArrow", "RClosedArrow", "Slash"}},
    {"soft_mask", 2, {"Alpha", "Luminosity"}},
    {"halftone", 21, {"SimpleDot", "InvertedSimpleDot", "DoubleDot", "InvertedDoubleDot", "CosineDot", "Double", "InvertedDouble", "Line", "LineX", "LineY", "Round", "Ellipse", "EllipseA", "InvertedEllipseA", "EllipseB", "EllipseC", "InvertedEllipseC", "Square", "Cross", "Rhomboid", "Diamond"}},
    {"3d_format", 2, {"U3D", "PRC"}},
    {"form_field", 3, {"Btn", "Tx", "Ch"}},
    {"collection_view", 4, {"D", "T", "H", "C"}},
    {"collection_subtype", 9, {"S", "D", "N", "F", "Desc", "ModDate", "CreationDate", "Size", "CompressedSize"}},
    {"collection_V", 2, {"false", "true"}},
    {"collection_E", 2, {"false", "true"}},
};
enum { NSITE = sizeof SITES / sizeof *SITES };
#define T(fn, ...) do { int rc_ = fn(__VA_ARGS__); if(rc_) return rc_; } while(0)
static bool is(int s, const char *w) { return strcmp(SITES[s].what, w) == 0; }
static std::string px(size_t n) { return std::string(n, 'p'); }
// Issues the calls that carry the value; the first error code.
static int pre(int s, uint32_t v) {
    if(is(s, "page_layout")) T(capy_document_properties_set_page_layout, d->dp, (CapyPDF_Page_Layout)v);
    if(is(s, "page_mode")) T(capy_document_properties_set_page_mode, d->dp, (CapyPDF_Page_Mode)v);
    if(is(s, "tagged")) { OK(capy_document_properties_set_language, d->dp, "fi-FI", -1); T(capy_document_properties_set_tagged, d->dp, (int32_t)v); }
    if(is(s, "docprops_cs") || strncmp(SITES[s].what, "convert", 7) == 0) { env::put("/m/p.icc", icc_cmyk_out()); OK(capy_document_properties_set_device_profile, d->dp, CAPY_DEVICE_CS_CMYK, "/m/p.icc"); }
    if(is(s, "docprops_cs")) T(capy_document_properties_set_colorspace, d->dp, (CapyPDF_Device_Colorspace)v);
    if(is(s, "device_profile_cs")) { env::put("/m/p.icc", v == CAPY_DEVICE_CS_GRAY ? icc_gray() : v == CAPY_DEVICE_CS_CMYK ? icc_cmyk() : icc_rgb()); T(capy_document_properties_set_device_profile, d->dp, (CapyPDF_Device_Colorspace)v, "/m/p.icc"); }
    if(is(s, "pdfx") || is(s, "pdfa")) {
        env::put("/m/p.icc", icc_cmyk());
        OK(capy_document_properties_set_device_profile, d->dp, CAPY_DEVICE_CS_CMYK, "/m/p.icc");
        OK(capy_document_properties_set_colorspace, d->dp, CAPY_DEVICE_CS_CMYK);
        OK(capy_document_properties_set_output_intent, d->dp, "intent", -1);
        if(is(s, "pdfx")) T(capy_document_properties_set_pdfx, d->dp, (CapyPDF_PDFX_Type)v); else T(capy_document_properties_set_pdfa, d->dp, (CapyPDF_PDFA_Type)v);
    }
    if(is(s, "pagebox")) {
        CapyPDF_PageProperties *p; OK(capy_page_properties_new, &p);
        OK(capy_page_properties_set_pagebox, p, CAPY_BOX_MEDIA, 0, 0, 200, 100);
        T(capy_page_properties_set_pagebox, p, (CapyPDF_Page_Box)v, 5, 6, 77, 88);
        T(capy_document_properties_set_default_page_properties, d->dp, p);
        OK(capy_page_properties_destroy, p);
    }
    return 0;
}
static int use(int s, uint32_t v) {
    if(is(s, "label_style")) { CapyPDF_Page_Label_Number_Style st = (CapyPDF_Page_Label_Number_Style)v; T(capy_generator_add_page_labeling, g, 0, &st, "x", -1, nullptr); }
    else if(is(s, "structure_type")) { CapyPDF_StructureItemId r, id; OK(capy_generator_add_structure_item, g, CAPY_STRUCTURE_TYPE_DOCUMENT, nullptr, nullptr, &r); T(capy_generator_add_structure_item, g, (CapyPDF_Structure_Type)v, &r, nullptr, &id); T(capy_dc_cmd_BDC_builtin, dc, id, nullptr); T(capy_dc_cmd_EMC, dc); }
    else if(is(s, "rolemap")) { CapyPDF_RoleId r; CapyPDF_StructureItemId id; T(capy_generator_add_rolemap_entry, g, "Own", -1, (CapyPDF_Structure_Type)v, &r); T(capy_generator_add_custom_structure_item, g, r, nullptr, nullptr, &id); }
    else if(strncmp(SITES[s].what, "transition", 10) == 0) {
        CapyPDF_Transition *t; OK(capy_transition_new, &t);
        if(is(s, "transition_S")) T(capy_transition_set_S, t, (CapyPDF_Transition_Type)v);
        if(is(s, "transition_Dm")) T(capy_transition_set_Dm, t, (CapyPDF_Transition_Dimension)v);
        if(is(s, "transition_M")) T(capy_transition_set_M, t, (CapyPDF_Transition_Motion)v);
        if(is(s, "transition_B")) T(capy_transition_set_B, t, (int32_t)v);
        T(capy_dc_set_page_transition, dc, t); OK(capy_transition_destroy, t);
    } else if(is(s, "BM") || is(s, "op") || is(s, "OP") || is(s, "OPM") || is(s, "AIS") || is(s, "TK") || is(s, "bpc") || is(s, "halftone") || is(s, "soft_mask")) {
        CapyPDF_GraphicsState *st; CapyPDF_GraphicsStateId id; OK(capy_graphics_state_new, &st);
        if(is(s, "BM")) T(capy_graphics_state_set_BM, st, (CapyPDF_Blend_Mode)v);
        if(is(s, "op")) T(capy_graphics_state_set_op, st, (int32_t)v);
        if(is(s, "OP")) T(capy_graphics_state_set_OP, st, (int32_t)v);
        if(is(s, "OPM")) T(capy_graphics_state_set_OPM, st, (int32_t)v);
        if(is(s, "AIS")) T(capy_graphics_state_set_AIS, st, (int32_t)v);
        if(is(s, "TK")) T(capy_graphics_state_set_TK, st, (int32_t)v);
        if(is(s, "bpc")) T(capy_graphics_state_set_blackpoint_compensation, st, (CapyPDF_Black_Point_Compensation)v);
        if(is(s, "halftone")) { CapyPDF_Halftone *h; OK(capy_halftone_new, &h); T(capy_halftone_set_type1, h, 60, 45, (CapyPDF_Halftone_Spot_Function)v); T(capy_graphics_state_set_HT, st, h); OK(capy_halftone_destroy, h); }
        if(is(s, "soft_mask")) { CapyPDF_SoftMask *m; CapyPDF_SoftMaskId mid; auto t = trgroup(*d); T(capy_soft_mask_new, (CapyPDF_Soft_Mask_Subtype)v, t, &m); T(capy_generator_add_soft_mask, g, m, &mid); T(capy_graphics_state_set_SMask, st, mid); OK(capy_soft_mask_destroy, m); }
        T(capy_generator_add_graphics_state, g, st, &id); T(capy_dc_cmd_gs, dc, id);
        OK(capy_graphics_state_destroy, st);
    } else if(strncmp(SITES[s].what, "group", 5) == 0) {
        CapyPDF_TransparencyGroupProperties *p; OK(capy_transparency_group_properties_new, &p);
        if(is(s, "group_CS")) T(capy_transparency_group_properties_set_CS, p, (CapyPDF_Device_Colorspace)v);
        if(is(s, "group_I")) T(capy_transparency_group_properties_set_I, p, (int32_t)v);
        if(is(s, "group_K")) T(capy_transparency_group_properties_set_K, p, (int32_t)v);
        T(capy_dc_set_transparency_group_properties, dc, p); OK(capy_transparency_group_properties_destroy, p);
    } else if(strncmp(SITES[s].what, "image", 5) == 0) {
        CapyPDF_RasterImageBuilder *b; CapyPDF_RasterImage *r; CapyPDF_ImagePdfProperties *p; CapyPDF_ImageId id;
        OK(capy_raster_image_builder_new, &b); OK(capy_raster_image_builder_set_size, b, 1, 1);
        uint32_t cs = is(s, "image_cs") ? v : is(s, "image_mask") ? CAPY_IMAGE_CS_GRAY : CAPY_IMAGE_CS_RGB;
        std::string data = px(cs == CAPY_IMAGE_CS_GRAY ? 1 : cs == CAPY_IMAGE_CS_CMYK ? 4 : 3);
        if(is(s, "image_compression") && v == CAPY_COMPRESSION_DEFLATE) data = std::string("\x78\x01\x01\x03\x00\xfc\xff" "abc" "\x02\x4d\x01\x27", 14);
        OK(capy_raster_image_builder_set_pixel_data, b, data.data(), data.size());
        OK(capy_raster_image_builder_set_pixel_depth, b, is(s, "image_mask") && v == 1 ? 1 : 8);
        T(capy_raster_image_builder_set_colorspace, b, (CapyPDF_Image_Colorspace)cs);
        if(is(s, "image_compression")) T(capy_raster_image_builder_set_input_data_compression_format, b, (CapyPDF_Compression)v);
        T(capy_raster_image_builder_build, b, &r);
        OK(capy_image_pdf_properties_new, &p);
        if(is(s, "image_interpolate")) T(capy_image_pdf_properties_set_interpolate, p, (CapyPDF_Image_Interpolation)v);
        if(is(s, "image_mask")) T(capy_image_pdf_properties_set_mask, p, (int32_t)v);
        T(capy_generator_add_image, g, r, p, &id); T(capy_dc_cmd_Do_image, dc, id);
        OK(capy_image_pdf_properties_destroy, p); OK(capy_raster_image_destroy, r); OK(capy_raster_image_builder_destroy, b);
    } else if(strncmp(SITES[s].what, "convert", 7) == 0) {
        CapyPDF_RasterImage *src = raster(1, 1, 8, CAPY_IMAGE_CS_RGB, "abc"), *out; CapyPDF_ImagePdfProperties *p; CapyPDF_ImageId id;
        T(capy_generator_convert_image, g, src, is(s, "convert_cs") ? (CapyPDF_Device_Colorspace)v : CAPY_DEVICE_CS_GRAY, is(s, "convert_ri") ? (CapyPDF_Rendering_Intent)v : CAPY_RI_PERCEPTUAL, &out);
        OK(capy_image_pdf_properties_new, &p); T(capy_generator_add_image, g, out, p, &id); T(capy_dc_cmd_Do_image, dc, id);
        OK(capy_image_pdf_properties_destroy, p); OK(capy_raster_image_destroy, out); OK(capy_raster_image_destroy, src);
    } else if(strncmp(SITES[s].what, "shading", 7) == 0) {
        CapyPDF_Shading *sh = nullptr; CapyPDF_ShadingId id;
        auto cs = (CapyPDF_Device_Colorspace)v;
        int n = v == CAPY_DEVICE_CS_GRAY ? 1 : v == CAPY_DEVICE_CS_CMYK ? 4 : 3;
        auto col = [&](double x) { return n == 1 ? gray(x) : n == 4 ? cmyk(x, x, x, x) : rgb(x, x, x); };
        if(is(s, "shading2_cs")) T(capy_type2_shading_new, cs, 1, 2, 3, 4, fn2(g, col(0), col(1)), &sh);
        else if(is(s, "shading3_cs")) { double co[6] = {1, 2, 3, 4, 5, 6}; T(capy_type3_shading_new, cs, co, fn2(g, col(0), col(1)), &sh); }
        else if(is(s, "shading4_cs")) { T(capy_type4_shading_new, cs, 0, 0, 100, 100, &sh); double co[6] = {1, 2, 3, 4, 5, 6}; auto *c = col(0.5); const CapyPDF_Color *c3[3] = {c, c, c}; T(capy_type4_shading_add_triangle, sh, co, c3); OK(capy_color_destroy, c); }
        else if(is(s, "shading6_cs")) { T(capy_type6_shading_new, cs, 0, 0, 100, 100, &sh); double co[24]; for(int i = 0; i < 24; i++) co[i] = i; auto *c = col(0.5); const CapyPDF_Color *c4[4] = {c, c, c, c}; T(capy_type6_shading_add_patch, sh, co, c4); OK(capy_color_destroy, c); }
        else { T(capy_type2_shading_new, CAPY_DEVICE_CS_RGB, 1, 2, 3, 4, fn2(g, rgb(0, 0, 0), rgb(1, 1, 1)), &sh); bool first = is(s, "shading_extend0"); T(capy_shading_set_extend, sh, first ? (int32_t)v : 1, first ? 0 : (int32_t)v); }
        T(capy_generator_add_shading, g, sh, &id); T(capy_dc_cmd_sh, dc, id); OK(capy_shading_destroy, sh);
    } else if(is(s, "separation_cs")) {
        double dom[2] = {0, 1}, ran[8] = {0, 1, 0, 1, 0, 1, 0, 1}; int n = v == CAPY_DEVICE_CS_GRAY ? 1 : v == CAPY_DEVICE_CS_CMYK ? 4 : 3;
        CapyPDF_Function *fo; CapyPDF_FunctionId f; CapyPDF_SeparationId id; CapyPDF_Color *c;
        OK(capy_type4_function_new, dom, 2, ran, 2 * n, n == 1 ? "{}" : n == 3 ? "{dup dup}" : "{dup dup dup}", -1, &fo); OK(capy_generator_add_function, g, fo, &f);
        T(capy_generator_add_separation, g, "Spot", -1, (CapyPDF_Device_Colorspace)v, f, &id);
        OK(capy_color_new, &c); T(capy_color_set_separation, c, id, 0.5); T(capy_dc_set_stroke, dc, c); OK(capy_color_destroy, c); OK(capy_function_destroy, fo);
    } else if(is(s, "annotation_flags") || is(s, "line_ending0") || is(s, "line_ending1")) {
        CapyPDF_Annotation *a; CapyPDF_AnnotationId id; OK(capy_line_annotation_new, "t", -1, 1, 2, 3, 4, &a); OK(capy_annotation_set_rectangle, a, 1, 2, 3, 4);
        if(is(s, "annotation_flags")) T(capy_annotation_set_flags, a, (CapyPDF_Annotation_Flags)v);
        else { auto e = (CapyPDF_Line_Annotation_End_Style)v; bool first = is(s, "line_ending0"); T(capy_annotation_set_line_endings, a, first ? e : CAPY_LINE_ANNOTATION_END_BUTT, first ? CAPY_LINE_ANNOTATION_END_BUTT : e); }
        T(capy_generator_add_annotation, g, a, &id); T(capy_dc_annotate, dc, id); OK(capy_annotation_destroy, a);
    } else if(is(s, "3d_format")) {
        env::put("/m/x.3d", "model"); CapyPDF_3DStream *st; CapyPDF_3DStreamId id; T(capy_3d_stream_new, "/m/x.3d", (CapyPDF_3D_File_Format)v, &st); T(capy_generator_add_3d_stream, g, st, &id);
        CapyPDF_Annotation *a; CapyPDF_AnnotationId aid; OK(capy_3d_annotation_new, &a); OK(capy_annotation_set_rectangle, a, 1, 2, 3, 4); OK(capy_annotation_set_3d_stream, a, id); T(capy_generator_add_annotation, g, a, &aid); T(capy_dc_annotate, dc, aid);
        OK(capy_annotation_destroy, a); OK(capy_3d_stream_destroy, st);
    } else if(is(s, "form_field")) {
        CapyPDF_FormField *f; CapyPDF_FormFieldId id; T(capy_form_field_new, (CapyPDF_Form_Field_Type)v, &f); OK(capy_form_field_set_T, f, "fld", -1); T(capy_generator_add_form_field, g, f, &id); OK(capy_form_field_destroy, f);
        CapyPDF_Annotation *a; CapyPDF_AnnotationId aid; OK(capy_widget_annotation_new, &a); OK(capy_annotation_set_rectangle, a, 1, 2, 3, 4); OK(capy_annotation_set_parent_field, a, id); T(capy_generator_add_annotation, g, a, &aid); T(capy_dc_annotate, dc, aid); OK(capy_annotation_destroy, a);
    } else if(strncmp(SITES[s].what, "collection", 10) == 0) {
        embed(*d, "f.txt", "abc"); CapyPDF_Collection *c; CapyPDF_CollectionSchema *sc; CapyPDF_CollectionField *f;
        OK(capy_collection_new, &c); OK(capy_collection_schema_new, &sc);
        T(capy_collection_field_new, is(s, "collection_subtype") ? (CapyPDF_Collection_Subtype)v : CAPY_COLLECTION_SUB_F, "Title", -1, &f);
        if(is(s, "collection_V")) T(capy_collection_field_set_V, f, (int32_t)v);
        if(is(s, "collection_E")) T(capy_collection_field_set_E, f, (int32_t)v);
        T(capy_collection_schema_add_entry, sc, "key", -1, f); T(capy_collection_set_schema, c, sc);
        if(is(s, "collection_view")) T(capy_collection_set_view, c, (CapyPDF_Collection_View)v);
        T(capy_generator_set_collection, g, c); OK(capy_collection_field_destroy, f); OK(capy_collection_schema_destroy, sc); OK(capy_collection_destroy, c);
    }
    return 0;
}
static const pdf::Obj *G(const pdf::Obj *o, const char *k) { return d->out.get(o, k); }
static const pdf::Obj *one(const pdf::Obj *page, const char *cat) { auto *r = G(G(page, "Resources"), cat); return r && r->a.size() == 1 ? d->out.deref(&r->a[0]) : nullptr; }
static bool val(const pdf::Obj *o, const char *w) {
    if(!*w) return o == nullptr;
    if(!o) return false;
    if(o->k == pdf::Name) return o->s == w;
    if(o->k == pdf::Bool) return strcmp(o->i ? "true" : "false", w) == 0;
    if(o->k == pdf::Int) return w[1] == 0 && o->i == w[0] - '0';
    return false;
}
static bool written(int s, uint32_t v, const pdf::Obj *page) {
    const pdf::Obj *cat = d->out.catalog();
    const char *w = s == 0 || SITES[s].names[0] ? SITES[s].names[v] : "";
    if(is(s, "page_layout")) return val(G(cat, "PageLayout"), w);
    if(is(s, "page_mode")) return val(G(cat, "PageMode"), w);
    if(is(s, "tagged")) { auto *m = G(cat, "MarkInfo"); return v ? m && val(G(m, "Marked"), "true") : !m || val(G(m, "Marked"), "false"); }
    if(is(s, "pagebox")) { auto *b = G(page, w); static const double e[4] = {5, 6, 77, 88}; if(!b || b->k != pdf::Array || b->a.size() != 4) return false; for(int i = 0; i < 4; i++) if(!b->a[i].num() || b->a[i].r != e[i]) return false;
        for(int i = 1; i < 5; i++) if((uint32_t)i != v && page->has(SITES[s].names[i])) return false; return true; }
    if(is(s, "label_style")) { auto *n = G(G(cat, "PageLabels"), "Nums"); return n && n->a.size() == 2 && val(G(d->out.deref(&n->a[1]), "S"), w); }
    if(is(s, "structure_type")) { int c = 0; for(auto &e : d->out.x) if(e.o.k == pdf::Dict && e.o.has("S") && e.o.has("P") && e.o.name_is("S", w)) c++; return c == (v == 0 ? 2 : 1); }
    if(is(s, "rolemap")) return val(G(G(G(cat, "StructTreeRoot"), "RoleMap"), "Own"), w);
    if(strncmp(SITES[s].what, "transition_", 11) == 0) { auto *t = G(page, "Trans"); return t && val(G(t, SITES[s].what + 11), w) && (int)t->keys.size() == (t->has("Type") ? 2 : 1); }
    if(is(s, "bpc")) return val(G(one(page, "ExtGState"), "UseBlackPtComp"), w);
    if(is(s, "halftone")) return val(G(G(one(page, "ExtGState"), "HT"), "SpotFunction"), w);
    if(is(s, "soft_mask")) return val(G(G(one(page, "ExtGState"), "SMask"), "S"), w);
    for(const char *k : {"BM", "op", "OP", "OPM", "AIS", "TK"}) if(is(s, k)) { auto *gs = one(page, "ExtGState"); return gs && val(G(gs, k), w) && (int)gs->keys.size() == (gs->has("Type") ? 2 : 1); }
    if(strncmp(SITES[s].what, "group_", 6) == 0) { auto *gr = G(page, "Group"); return gr && val(G(gr, "S"), "Transparency") && val(G(gr, SITES[s].what + 6), w); }
    if(is(s, "image_cs") || is(s, "convert_cs")) return val(G(one(page, "XObject"), "ColorSpace"), w);
    if(is(s, "image_interpolate")) return val(G(one(page, "XObject"), "Interpolate"), w);
    if(is(s, "image_mask")) { auto *im = one(page, "XObject"); return im && (val(G(im, "ImageMask"), w) || (!v && val(G(im, "ImageMask"), "false"))) && im->has("ColorSpace") == !v; }
    if(is(s, "image_compression")) { auto *x = G(G(page, "Resources"), "XObject"); std::string c; return x && x->a.size() == 1 && d->out.content((int)x->a[0].i, c) && c == (v == CAPY_COMPRESSION_DEFLATE ? "abc" : "ppp"); }
    if(is(s, "shading_extend0") || is(s, "shading_extend1")) { auto *e = G(one(page, "Shading"), "Extend"); bool first = is(s, "shading_extend0"); return e && e->k == pdf::Array && e->a.size() == 2 && val(&e->a[first ? 0 : 1], w) && val(&e->a[first ? 1 : 0], first ? "false" : "true"); }
    if(strncmp(SITES[s].what, "shading", 7) == 0) return val(G(one(page, "Shading"), "ColorSpace"), w);
    if(is(s, "separation_cs")) { auto *c = one(page, "ColorSpace"); return c && c->k == pdf::Array && c->a.size() == 4 && c->a[2].is(w); }
    const pdf::Obj *an = G(page, "Annots"); an = an && an->a.size() == 1 ? d->out.deref(&an->a[0]) : nullptr;
    if(is(s, "annotation_flags")) { auto *f = G(an, "F"); return an && (f ? f->k == pdf::Int && f->i == (long)v : v == 0); }
    if(is(s, "line_ending0") || is(s, "line_ending1")) { auto *e = G(an, "LE"); bool first = is(s, "line_ending0"); return e && e->a.size() == 2 && e->a[first ? 0 : 1].is(w) && e->a[first ? 1 : 0].is("Butt"); }
    if(is(s, "3d_format")) return val(G(G(an, "3DD"), "Subtype"), w);
    if(is(s, "form_field")) return val(G(G(an, "Parent"), "FT"), w);
    if(is(s, "collection_view")) return val(G(G(cat, "Collection"), "View"), w);
    if(strncmp(SITES[s].what, "collection", 10) == 0) { auto *sc = G(G(cat, "Collection"), "Schema"); auto *f = sc ? d->out.get(sc, "key") : nullptr; const char *k = is(s, "collection_subtype") ? "Subtype" : is(s, "collection_V") ? "V" : "E"; return f && val(G(f, k), w); }
    return true;
}
extern "C" void harness(void) {
    int s = capysym_choice("site", NSITE);
    D doc;
    d = &doc;
    uint32_t v = (uint32_t)capysym_sym("value", 32);
    bool in = v < SITES[s].n;
    if(is(s, "annotation_flags")) capysym_assume(in);    // reserved bits are outside the statement
    if(is(s, "annotation_flags") && in) {
        // each bit alone and two mixtures: the number is written by the integer formatter, covered by the value split
        uint32_t k = (uint32_t)capysym_choice("flag", 14);
        static const uint32_t fl[14] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 3, 0x155, 1023};
        capysym_assume(v == fl[k]);
        v = fl[k];
    } else if(in) v = (uint32_t)capysym_pick(v);
    int rc = pre(s, v);
    if(rc == 0) rc = capy_generator_new(doc.fname.c_str(), doc.dp, &doc.g);
    if(rc == 0) {
        g = doc.g;
        dc = doc.page();
        rc = use(s, v);
        if(rc == 0) rc = capy_generator_add_page(g, dc);
        if(rc == 0) rc = capy_generator_write(g);
    }
    C((rc == 0) == in, in ? "accepted:enumerator" : "rejected:not-an-enumerator");
    if(rc == 0) {
        doc.parse();
        C(written(s, v, doc.pg(0)), "written-as-named");
        capysym_reach("accepted");
    } else {
        C(!env::find(doc.fname.c_str()), "no-file-on-error");
        capysym_reach("rejected");
    }
}
