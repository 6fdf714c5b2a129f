// Every public entry point that takes a text, a name or a byte string, with the place in the file it ends up in.
#pragma once
#include "features.hpp"
// kind: 'U' text string (UTF-8 in), 'A' ASCII string, 'N' name, 'B' byte string / stream
struct Chan { char kind; const char *label; };
static const Chan CHANS[] = {
    {'U', "title"}, {'U', "author"}, {'U', "creator"}, {'A', "language"}, {'U', "intent"},                   // 0-4: before the generator exists
    {'U', "label-prefix"}, {'U', "outline-title"}, {'U', "annotation"}, {'U', "line-annotation"}, {'A', "uri"}, // 5-9
    {'U', "struct-T"}, {'U', "struct-Alt"}, {'U', "struct-ActualText"}, {'A', "struct-Lang"},                 // 10-13
    {'U', "field-T"}, {'U', "field-V"}, {'U', "field-Opt"}, {'N', "button-V"}, {'N', "button-state"},        // 14-18
    {'U', "file-F"}, {'U', "file-tree"}, {'N', "file-subtype"}, {'B', "file-content"},                        // 19-22
    {'U', "layer"}, {'N', "role"}, {'N', "separation"}, {'N', "schema-key"}, {'U', "schema-N"}, {'B', "collection-D"}, // 23-28
    {'U', "number-format"}, {'A', "tag-value"}, {'N', "tag-key"}, {'N', "bdc-name"}, {'N', "bmc-name"},      // 29-33
};
enum { NCHAN = sizeof CHANS / sizeof *CHANS, NPRECHAN = 5 };
// Decodes a PDF text string to UTF-8.
inline bool text_string(const std::string &s, std::string &out) {
    out.clear();
    if(s.size() >= 2 && (unsigned char)s[0] == 0xFE && (unsigned char)s[1] == 0xFF) {
        if(s.size() % 2) return false;
        for(size_t i = 2; i < s.size(); i += 2) {
            uint32_t u = (uint32_t)(unsigned char)s[i] << 8 | (unsigned char)s[i + 1];
            if(u >= 0xDC00 && u < 0xE000) return false;
            if(u >= 0xD800 && u < 0xDC00) {
                if(i + 4 > s.size()) return false;
                i += 2;
                uint32_t l = (uint32_t)(unsigned char)s[i] << 8 | (unsigned char)s[i + 1];
                if(l < 0xDC00 || l >= 0xE000) return false;
                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
            }
            if(u < 0x80) out += (char)u;
            else if(u < 0x800) { out += (char)(0xC0 | u >> 6); out += (char)(0x80 | (u & 0x3F)); }
            else if(u < 0x10000) { out += (char)(0xE0 | u >> 12); out += (char)(0x80 | (u >> 6 & 0x3F)); out += (char)(0x80 | (u & 0x3F)); }
            else { out += (char)(0xF0 | u >> 18); out += (char)(0x80 | (u >> 12 & 0x3F)); out += (char)(0x80 | (u >> 6 & 0x3F)); out += (char)(0x80 | (u & 0x3F)); }
        }
        return true;
    }
    if(s.size() >= 3 && (unsigned char)s[0] == 0xEF && (unsigned char)s[1] == 0xBB && (unsigned char)s[2] == 0xBF) { out = s.substr(3); return true; }
    for(unsigned char c : s) if(c >= 0x80 || (c >= 0x18 && c < 0x20) || c == 0x7F) return false;   // where PDFDocEncoding differs from ASCII
    out = s;
    return true;
}
inline bool utf8_ok(const std::string &t) {
    size_t i = 0, n = t.size();
    const unsigned char *p = (const unsigned char *)t.data();
    while(i < n) {
        unsigned c = p[i];
        if(c < 0x80) { i++; continue; }
        if(c < 0xC2 || c > 0xF4) return false;
        size_t len = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
        if(i + len > n) return false;
        unsigned v = len == 2 ? c & 0x1F : len == 3 ? c & 0xF : c & 7;
        for(size_t k = 1; k < len; k++) { if((p[i + k] & 0xC0) != 0x80) return false; v = v << 6 | (p[i + k] & 0x3F); }
        if(len == 3 && v < 0x800) return false;
        if(len == 4 && (v < 0x10000 || v > 0x10FFFF)) return false;
        if(v >= 0xD800 && v < 0xE000) return false;
        i += len;
    }
    return true;
}
struct ChanDoc {
    D d; int k; DC *dc = nullptr;
    CapyPDF_EC rc = 0;
    ChanDoc(int k) : k(k) {}
    // everything before the string is handed over
    void prepare() {
        if(k == 4) {
            env::put("/m/rgb.icc", icc_rgb());
            OK(capy_document_properties_set_device_profile, d.dp, CAPY_DEVICE_CS_RGB, "/m/rgb.icc");
            OK(capy_document_properties_set_pdfx, d.dp, CAPY_PDFX_4);
        }
        if(k >= NPRECHAN) { d.open(); dc = d.page(); }
    }
    // hands the string over; returns the library's verdict.  `n` may be -1 for a NUL terminated string.
    CapyPDF_EC set(const char *p, int n) {
        Gen *g = d.g;
        switch(k) {
        case 0: return capy_document_properties_set_title(d.dp, p, n);
        case 1: return capy_document_properties_set_author(d.dp, p, n);
        case 2: return capy_document_properties_set_creator(d.dp, p, n);
        case 3: return capy_document_properties_set_language(d.dp, p, n);
        case 4: return capy_document_properties_set_output_intent(d.dp, p, n);
        case 5: { CapyPDF_Page_Label_Number_Style st = CAPY_PAGE_LABEL_NUMBER_STYLE_DECIMAL; return capy_generator_add_page_labeling(g, 0, &st, p, n, nullptr); }
        case 6: { CapyPDF_Outline *o; CapyPDF_OutlineId id; OK(capy_outline_new, &o); auto r = capy_outline_set_title(o, p, n); if(r) return r; OK(capy_generator_add_outline, g, o, &id); return 0; }
        case 7: { CapyPDF_Annotation *a; auto r = capy_text_annotation_new(p, n, &a); if(r) return r; OK(capy_dc_annotate, dc, annot(g, a)); return 0; }
        case 8: { CapyPDF_Annotation *a; auto r = capy_line_annotation_new(p, n, 0, 0, 1, 1, &a); if(r) return r; OK(capy_dc_annotate, dc, annot(g, a)); return 0; }
        case 9: { CapyPDF_Annotation *a; OK(capy_link_annotation_new, &a); auto r = capy_annotation_set_uri(a, p, n); if(r) return r; OK(capy_dc_annotate, dc, annot(g, a)); return 0; }
        case 10: case 11: case 12: case 13: {
            CapyPDF_StructItemExtraData *x; OK(capy_struct_item_extra_data_new, &x);
            auto r = k == 10 ? capy_struct_item_extra_data_set_t(x, p, n) : k == 11 ? capy_struct_item_extra_data_set_alt(x, p, n) : k == 12 ? capy_struct_item_extra_data_set_actual_text(x, p, n) : capy_struct_item_extra_data_set_lang(x, p, n);
            if(r) return r;
            auto id = sitem(g, CAPY_STRUCTURE_TYPE_DOCUMENT, nullptr, x);
            OK(capy_dc_cmd_BDC_builtin, dc, id, nullptr); OK(capy_dc_cmd_EMC, dc);
            return 0; }
        case 14: case 15: case 16: case 17: {
            CapyPDF_FormField *f; CapyPDF_FormFieldId id;
            OK(capy_form_field_new, k == 16 ? CAPY_FORM_FIELD_TYPE_CH : k == 17 ? CAPY_FORM_FIELD_TYPE_BTN : CAPY_FORM_FIELD_TYPE_TX, &f);
            auto r = k == 14 ? capy_form_field_set_T(f, p, n) : k == 16 ? capy_form_field_add_Opt_entry(f, p, n) : capy_form_field_set_V(f, p, n);
            if(r) return r;
            if(k == 16) OK(capy_form_field_add_Opt_entry, f, "second", -1);
            OK(capy_generator_add_form_field, g, f, &id);
            return 0; }
        case 18: { auto f = field(d, CAPY_FORM_FIELD_TYPE_BTN, "chk"); auto on = fxo(d), off = fxo(d); CapyPDF_Annotation *a; OK(capy_widget_annotation_new, &a); OK(capy_annotation_set_parent_field, a, f);
            auto r = capy_annotation_set_widget_button_appearance(a, on, off, p, n); if(r) return r; OK(capy_dc_annotate, dc, annot(g, a)); return 0; }
        case 19: case 20: case 21: case 22: {
            CapyPDF_EmbeddedFile *e; CapyPDF_EmbeddedFileId id; OK(capy_embedded_file_new, &e);
            if(k >= 21) OK(capy_embedded_file_set_pdf_name, e, "name.bin", -1);
            auto r = k <= 20 ? capy_embedded_file_set_pdf_name(e, p, n) : k == 21 ? capy_embedded_file_set_subtype(e, p, n) : capy_embedded_file_set_contents(e, p, n);
            if(r) return r;
            OK(capy_generator_embed_file, g, e, &id);
            return 0; }
        case 23: { CapyPDF_OptionalContentGroup *o; CapyPDF_OptionalContentGroupId id; auto r = capy_optional_content_group_new(&o, p); if(r) return r; OK(capy_generator_add_optional_content_group, g, o, &id); return 0; }
        case 24: { CapyPDF_RoleId r; auto rc = capy_generator_add_rolemap_entry(g, p, n, CAPY_STRUCTURE_TYPE_SPAN, &r); if(rc) return rc; CapyPDF_StructureItemId id; OK(capy_generator_add_custom_structure_item, g, r, nullptr, nullptr, &id); OK(capy_dc_cmd_BDC_builtin, dc, id, nullptr); OK(capy_dc_cmd_EMC, dc); return 0; }
        case 25: { CapyPDF_SeparationId id; double dom[2] = {0, 1}, ran[8] = {0, 1, 0, 1, 0, 1, 0, 1}; CapyPDF_Function *fo; CapyPDF_FunctionId f; OK(capy_type4_function_new, dom, 2, ran, 8, "{dup 0 exch dup 0.5 mul exch 0 exch}", -1, &fo); OK(capy_generator_add_function, g, fo, &f); return capy_generator_add_separation(g, p, n, CAPY_DEVICE_CS_CMYK, f, &id); }
        case 26: case 27: case 28: {
            CapyPDF_Collection *c; OK(capy_collection_new, &c);
            if(k == 28) { auto r = capy_collection_set_D(c, p, n); if(r) return r; }
            else {
                CapyPDF_CollectionSchema *sc; OK(capy_collection_schema_new, &sc); CapyPDF_CollectionField *f;
                auto r = capy_collection_field_new(CAPY_COLLECTION_SUB_DESC, k == 27 ? p : "N", k == 27 ? n : -1, &f); if(r) return r;
                r = capy_collection_schema_add_entry(sc, k == 26 ? p : "key", k == 26 ? n : -1, f); if(r) return r;
                OK(capy_collection_set_schema, c, sc);
            }
            OK(capy_generator_set_collection, g, c);
            return 0; }
        case 29: { CapyPDF_Viewport *vp; OK(capy_viewport_new, 0, 0, 50, 50, &vp); CapyPDF_Measure *m; OK(capy_measure_new, &m); CapyPDF_NumberFormat *nf, *n2; auto r = capy_number_format_new(p, n, 2.0, &nf); if(r) return r; OK(capy_measure_append_X, m, nf); OK(capy_number_format_new, "m", -1, 1, &n2); OK(capy_measure_append_D, m, n2); OK(capy_number_format_new, "m", -1, 1, &n2); OK(capy_measure_append_A, m, n2); OK(capy_viewport_set_measure, vp, m); OK(capy_dc_append_viewport, dc, vp); return 0; }
        case 30: case 31: { CapyPDF_BDCTags *t; OK(capy_bdc_tags_new, &t); auto r = k == 30 ? capy_bdc_tags_add_tag(t, "Key", -1, p, n) : capy_bdc_tags_add_tag(t, p, n, "val", -1); if(r) return r; r = capy_dc_cmd_BDC_testing(dc, "Span", -1, t); if(r) return r; OK(capy_dc_cmd_EMC, dc); return 0; }
        case 32: { CapyPDF_BDCTags *t; OK(capy_bdc_tags_new, &t); OK(capy_bdc_tags_add_tag, t, "Key", -1, "val", -1); auto r = capy_dc_cmd_BDC_testing(dc, p, n, t); if(r) return r; OK(capy_dc_cmd_EMC, dc); return 0; }
        case 33: { auto r = capy_dc_cmd_BMC(dc, p); if(r) return r; OK(capy_dc_cmd_EMC, dc); return 0; }
        }
        capysym_fail("no-such-channel");
    }
    void write() {
        if(!d.g) { d.open(); dc = d.page(); }
        d.add(dc);
        d.finish();
    }
    const pdf::Obj *only(const char *key, const char *val, const char *key2 = nullptr, const char *val2 = nullptr) {
        const pdf::Obj *r = nullptr;
        for(auto &e : d.out.x) if(e.o.name_is(key, val) && (!key2 || e.o.name_is(key2, val2))) { C(!r, "one-object-of-its-kind"); r = &e.o; }
        return r;
    }
    const pdf::Obj *need(const pdf::Obj *o) { C(o, CHANS[k].label); return d.out.deref(o); }
    const pdf::Obj *in(const pdf::Obj *o, const char *key) { o = need(o); return need(o->get(key)); }
    // value the reader sees
    std::string value() {
        auto &out = d.out;
        const pdf::Obj *cat = out.catalog(), *v = nullptr, *page = d.pg(0);
        auto info = [&](const char *key) { return in(out.deref(out.trailer.get("Info")), key); };
        auto ann = [&]() { auto *a = in(page, "Annots"); C(a->k == pdf::Array && a->a.size() == 1, CHANS[k].label); return need(&a->a[0]); };
        std::string r;
        switch(k) {
        case 0: v = info("Title"); break;
        case 1: v = info("Author"); break;
        case 2: v = info("Creator"); break;
        case 3: v = in(cat, "Lang"); break;
        case 4: { auto *o = in(cat, "OutputIntents"); C(o->k == pdf::Array && o->a.size() == 1, "intents"); v = in(&o->a[0], "OutputConditionIdentifier"); break; }
        case 5: { auto *o = in(in(cat, "PageLabels"), "Nums"); C(o->k == pdf::Array && o->a.size() == 2 && o->a[0].k == pdf::Int && o->a[0].i == 0, "label-prefix"); v = in(&o->a[1], "P"); break; }
        case 6: v = in(in(in(cat, "Outlines"), "First"), "Title"); break;
        case 7: case 8: v = in(ann(), "Contents"); break;
        case 9: v = in(in(ann(), "A"), "URI"); break;
        case 10: v = in(only("S", "Document"), "T"); break;
        case 11: v = in(only("S", "Document"), "Alt"); break;
        case 12: v = in(only("S", "Document"), "ActualText"); break;
        case 13: v = in(only("S", "Document"), "Lang"); break;
        case 14: case 15: case 16: case 17: {
            auto *f = in(in(cat, "AcroForm"), "Fields");
            C(f->k == pdf::Array && f->a.size() == 1, CHANS[k].label);
            v = in(&f->a[0], k == 14 ? "T" : k == 16 ? "Opt" : "V");
            if(k == 16) { C(v->k == pdf::Array && v->a.size() == 2, "field-Opt"); v = &v->a[0]; }
            break; }
        case 18: { auto *n = in(in(ann(), "AP"), "N"); C(n->k == pdf::Dict && n->keys.size() == 2 && (n->keys[0] == "Off" || n->keys[1] == "Off"), "button-state"); return n->keys[0] == "Off" ? n->keys[1] : n->keys[0]; }
        case 19: { auto *fs = only("Type", "Filespec"); v = in(fs, "UF"); auto *f = in(fs, "F"); C(f->k == pdf::Str && f->s == v->s, "file-F-UF"); C(v->k == pdf::Str && text_string(v->s, r), "file-F");
            std::string u;   // file specification strings: "\\/" stands for a slash inside a component
            for(size_t i = 0; i < r.size(); i++) { if(r[i] == '\\' && i + 1 < r.size() && r[i + 1] == '/') i++; u += r[i]; }
            return u; }
        case 20: { auto *n = in(in(in(cat, "Names"), "EmbeddedFiles"), "Names"); C(n->k == pdf::Array && n->a.size() == 2, "file-tree"); v = &n->a[0];
            auto *l = in(in(in(cat, "Names"), "EmbeddedFiles"), "Limits"); C(l->k == pdf::Array && l->a.size() == 2 && l->a[0].s == v->s && l->a[1].s == v->s, "file-tree-limits"); C(v->k == pdf::Str, "file-tree"); return v->s; }
        case 21: { v = in(only("Type", "EmbeddedFile"), "Subtype"); break; }
        case 22: { int n = out.objnum(need(only("Type", "EmbeddedFile"))); C(out.content(n, r), "file-content"); return r; }
        case 23: v = in(only("Type", "OCG"), "Name"); break;
        case 24: { auto *m = in(in(cat, "StructTreeRoot"), "RoleMap"); C(m->keys.size() == 1 && m->a[0].is("Span"), "role"); 
            std::string cs = d.contents(page); pdf::Lexer L(cs); pdf::Obj o; C(L.value(o) && o.k == pdf::Name && o.s == m->keys[0], "role-in-content");
            const pdf::Obj *se = nullptr; for(auto &e : out.x) if(e.o.name_is("Type", "StructElem")) se = &e.o; C(in(se, "S")->is(m->keys[0].c_str()), "role-in-element"); return m->keys[0]; }
        case 25: { for(auto &e : out.x) if(e.o.k == pdf::Array && e.o.a.size() == 4 && e.o.a[0].is("Separation")) v = &e.o.a[1]; v = need(v); break; }
        case 26: case 27: { auto *s = in(in(cat, "Collection"), "Schema"); C(s->keys.size() == 1, CHANS[k].label); if(k == 26) return s->keys[0]; v = in(&s->a[0], "N"); break; }
        case 28: v = in(in(cat, "Collection"), "D"); C(v->k == pdf::Str, "collection-D"); return v->s;
        case 29: { auto *vp = in(page, "VP"); C(vp->k == pdf::Array && vp->a.size() == 1, "vp"); auto *x = in(in(&vp->a[0], "Measure"), "X"); C(x->k == pdf::Array && x->a.size() == 1, "vp-x"); v = in(&x->a[0], "U"); break; }
        case 30: case 31: case 32: case 33: {
            std::string cs = d.contents(page);
            pdf::Lexer L(cs); pdf::Obj nm, pl, kw;
            C(L.value(nm) && nm.k == pdf::Name, "bdc-name");
            if(k == 33) { C(L.value(kw) && kw.k == pdf::Kw && kw.s == "BMC", "bmc-op"); return nm.s; }
            C(L.value(pl) && pl.k == pdf::Dict && pl.keys.size() == 1, "bdc-props");
            C(L.value(kw) && kw.k == pdf::Kw && kw.s == "BDC", "bdc-op");
            C(L.value(kw) && kw.k == pdf::Kw && kw.s == "EMC", "bdc-end");
            C(L.at_end(), "bdc-tail");
            if(k == 32) return nm.s;
            if(k == 31) return pl.keys[0];
            C(pl.a[0].k == pdf::Str, "tag-value");
            return pl.a[0].s; }
        }
        C(v, CHANS[k].label);
        char kind = CHANS[k].kind;
        if(kind == 'N') { C(v->k == pdf::Name, CHANS[k].label); return v->s; }
        C(v->k == pdf::Str, CHANS[k].label);
        if(kind != 'U') return v->s;
        C(text_string(v->s, r), CHANS[k].label);
        return r;
    }
};
