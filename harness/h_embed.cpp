// C22: embedded files are found by name with their exact contents; portfolios carry the schema given.
#include "features.hpp"
#include "content.hpp"
#include "channels.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool boolean(O o, int v) { return o && o->k == pdf::Bool && !!o->i == !!v; }
static std::string fsname(O o) {        // file specification string: UTF-8 with its mark, "\\/" is a slash
    C(o && o->k == pdf::Str && o->s.size() >= 3 && o->s.compare(0, 3, "\xef\xbb\xbf") == 0, "file-name-encoding");
    std::string u;
    for(size_t i = 3; i < o->s.size(); i++) { if(o->s[i] == '\\' && i + 1 < o->s.size() && o->s[i + 1] == '/') i++; u += o->s[i]; }
    return u;
}
struct F { std::string name, data, mime; CapyPDF_EmbeddedFileId id; };
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static void check_spec(O fs, const F &f) {
    C(fs && fs->name_is("Type", "Filespec"), "filespec");
    C(same(fsname(G(fs, "F")), f.name) && same(fsname(G(fs, "UF")), f.name), "filespec-name");
    O ef = G(fs, "EF"); C(ef && ef->k == pdf::Dict && ef->get("F") && ef->get("F")->k == pdf::Ref, "filespec-EF");
    O st = d->out.deref(ef->get("F"));
    C(st->name_is("Type", "EmbeddedFile"), "embedded-file-type");
    C(f.mime.empty() ? !st->has("Subtype") : st->name_is("Subtype", f.mime.c_str()), "embedded-file-subtype");
    std::string s = d->stream(ef->get("F"), "embedded-file");
    C(same(s, f.data), "embedded-file-contents");
}
#if PART == 0
static void body() {
    int n = capysym_choice("files", 4), pdfa = capysym_choice("pdfa", 2), names = n ? capysym_choice("names", 3) : 0, how = n ? capysym_choice("how", 4) : 0, ann = n ? capysym_choice("annotation", n + 1) : 0;
    if(pdfa) { static std::string icc = icc_rgb(); env::put("/m/rgb.icc", icc); OK(capy_document_properties_set_device_profile, d->dp, CAPY_DEVICE_CS_RGB, "/m/rgb.icc"); OK(capy_document_properties_set_pdfa, d->dp, CAPY_PDFA_4f); OK(capy_document_properties_set_output_intent, d->dp, "sRGB", -1); }
    d->open(); g = d->g;
    std::vector<F> fs;
    for(int i = 0; i < n; i++) {
        F f;
        if(names == 0) f.name = i == 0 ? "b.txt" : i == 1 ? symchars(1, "name", 33, 126) : "a/\xc3\xa9";       // any order, and equal names below
        else if(names == 1) f.name = i == 0 ? "ab" : i == 1 ? symchars(2, "name", 96, 99) : "abc";
        else f.name = i == 0 ? "" : i == 1 ? "\xc3\xa9" : "\xf0\x9f\x98\x80";
        if(names == 2 && i == 0) f.name = "x";
        symbytes(f.data, i == 1 ? 3 : i, "data");
        if(i == 2) f.data += "long enough to matter";
        if(i != 1) f.mime = i ? "text/plain" : "application/x-y";
        CapyPDF_EmbeddedFile *ef; OK(capy_embedded_file_new, &ef);
        if(how == 1 || how == 3) {
            // loaded from disk, under the last component of its path
            bool there = !(how == 3 && i == n - 1);
            std::string base = names == 0 && i == 2 ? "odd name.bin" : names == 0 && i == 1 ? "p" : f.name, path = "/m/dir/" + base;
            if(names != 2 && i == 1) { OK(capy_embedded_file_set_pdf_name, ef, "unrelated", -1); path = "/m/dir/plain"; base = "plain"; }
            f.name = base;
            if(there) env::put(path.c_str(), f.data);
            int rc = capy_embedded_file_load_file(ef, path.c_str());
            C((rc == 0) == there, "verdict:load-file");
            if(rc) { f.data.clear(); f.name = names != 2 && i == 1 ? "unrelated" : "unnamed"; }
        } else {
            OK(capy_embedded_file_set_pdf_name, ef, f.name.data(), (int)f.name.size());
            OK(capy_embedded_file_set_contents, ef, f.data.data(), (int)f.data.size());
        }
        if(!f.mime.empty()) OK(capy_embedded_file_set_subtype, ef, f.mime.data(), (int)f.mime.size());
        bool dup = false;
        for(auto &o : fs) if(same(o.name, f.name)) dup = true;
        int rc = capy_generator_embed_file(g, ef, &f.id);
        C((rc == 0) == !dup, "verdict:embed");
        if(!rc) fs.push_back(f);
        if(how == 2) { OK(capy_embedded_file_set_pdf_name, ef, "zz", -1); OK(capy_embedded_file_set_contents, ef, "zz", 2); OK(capy_embedded_file_set_subtype, ef, "zz", 2); }
        OK(capy_embedded_file_destroy, ef);
    }
    DC *dc = d->page();
    if(ann && ann <= (int)fs.size()) { CapyPDF_Annotation *a; CapyPDF_AnnotationId id; OK(capy_file_attachment_annotation_new, fs[ann - 1].id, &a); OK(capy_annotation_set_rectangle, a, 0, 0, 5, 5); OK(capy_generator_add_annotation, g, a, &id); OK(capy_annotation_destroy, a); OK(capy_dc_annotate, dc, id); }
    d->add(dc);
    d->finish();
    O cat = d->out.get(&d->out.trailer, "Root"), nm = G(cat, "Names"), af = G(cat, "AF");
    if(fs.empty()) { C(pdfa ? nm && G(nm, "EmbeddedFiles") : !nm && !af, "no-files"); O t = nm ? G(G(nm, "EmbeddedFiles"), "Names") : nullptr; C(!t || t->a.empty(), "no-files"); capysym_reach("files"); return; }
    O tree = G(nm, "EmbeddedFiles"), arr = G(tree, "Names"), lim = G(tree, "Limits");
    C(arr && arr->k == pdf::Array && arr->a.size() == 2 * fs.size(), "name-tree");
    std::vector<bool> seen(fs.size());
    for(size_t i = 0; i < fs.size(); i++) {
        O k = &arr->a[2 * i]; C(k->k == pdf::Str, "name-tree-key");
        if(i) C(arr->a[2 * i - 2].s < k->s, "name-tree-order");
        int at = -1;
        for(size_t j = 0; j < fs.size(); j++) if(!seen[j] && same(fs[j].name, k->s)) at = (int)j;
        C(at >= 0, "name-tree-key"); seen[at] = true;
        check_spec(d->out.deref(&arr->a[2 * i + 1]), fs[at]);
    }
    if(lim) C(lim->a.size() == 2 && same(lim->a[0].s, arr->a[0].s) && same(lim->a[1].s, arr->a[2 * fs.size() - 2].s), "name-tree-limits");
    C(af && af->k == pdf::Array && af->a.size() == fs.size(), "associated-files");
    for(size_t i = 0; i < fs.size(); i++) { O f = d->out.deref(&af->a[i]); check_spec(f, fs[i]); C(G(f, "AFRelationship") && G(f, "AFRelationship")->k == pdf::Name, "associated-file-relationship"); }
    if(ann && ann <= (int)fs.size()) {
        O a = G(d->pg(0), "Annots"); C(a && a->a.size() == 1, "attachment");
        O x = d->out.deref(&a->a[0]); C(x->name_is("Subtype", "FileAttachment"), "attachment"); check_spec(G(x, "FS"), fs[ann - 1]);
    } else C(!d->pg(0)->has("Annots"), "attachment");
    capysym_reach("files");
}
#else
static const char *SUBS[9] = {"S", "D", "N", "F", "Desc", "ModDate", "CreationDate", "Size", "CompressedSize"};
static void body() {
    d->open(); g = d->g;
    int n = capysym_choice("fields", 4), opt = capysym_choice("optional", 8), view = capysym_choice("view", 5), D_ = view & 1, second = opt & 1, schema = n || opt & 2;
    CapyPDF_Collection *c; CapyPDF_CollectionSchema *sc; OK(capy_collection_new, &c); OK(capy_collection_schema_new, &sc);
    int32_t o[3]; uint32_t sub[3];
    static const char *KEY[3] = {"first", "b c", "A"}, *LAB[3] = {"Title", "\xc3\x84\xe2\x82\xac", ""};
    for(int i = 0; i < n; i++) {
        CapyPDF_CollectionField *f;
        sub[i] = i == n - 1 && view == 4 ? (uint32_t)capysym_choice("subtype", 9) : (uint32_t)((opt + i) % 9);
        OK(capy_collection_field_new, (CapyPDF_Collection_Subtype)sub[i], LAB[i], (int)strlen(LAB[i]), &f);
        unsigned m = (opt + i) & 7;
        o[i] = 5;
        if(m & 1) { o[i] = (int32_t)capysym_range("O", -1, 1) * (i + 1); OK(capy_collection_field_set_O, f, o[i]); }
        if(m & 2) OK(capy_collection_field_set_V, f, i == 1);
        if(m & 4) OK(capy_collection_field_set_E, f, i != 1);
        // entries without a name, or with a leading slash, are refused and the field stays usable
        C(capy_collection_schema_add_entry(sc, "", 0, f) != 0 && capy_collection_schema_add_entry(sc, "/x", 2, f) != 0, "verdict:schema-key");
        OK(capy_collection_schema_add_entry, sc, KEY[i], (int)strlen(KEY[i]), f);
        OK(capy_collection_field_destroy, f);
    }
    if(schema) OK(capy_collection_set_schema, c, sc);
    OK(capy_collection_schema_destroy, sc);
    if(view < 4) OK(capy_collection_set_view, c, (CapyPDF_Collection_View)view);
    std::string def = D_ ? symchars(1, "default", 32, 126) + "(" : "";
    if(D_) OK(capy_collection_set_D, c, def.data(), 2);
    embed(*d, "some.txt", "abc");
    OK(capy_generator_set_collection, g, c);
    OK(capy_collection_destroy, c);
    if(second) { OK(capy_collection_new, &c); OK(capy_collection_set_view, c, CAPY_COLLECTION_C); C(capy_generator_set_collection(g, c) != 0, "verdict:second-collection"); OK(capy_collection_destroy, c); }
    d->add(d->page());
    d->finish();
    O cat = d->out.get(&d->out.trailer, "Root"), co = G(cat, "Collection");
    static const char *VN[4] = {"D", "T", "H", "C"};
    C(co && co->k == pdf::Dict, "collection");
    C(view < 4 ? co->name_is("View", VN[view]) : !co->has("View"), "collection-view");
    O dd = G(co, "D"); C(D_ ? dd && dd->k == pdf::Str && same(dd->s, def) : !dd, "collection-D");
    O s = G(co, "Schema");
    C(schema ? s && s->k == pdf::Dict && (int)s->keys.size() == n : !s, "collection-schema");
    for(int i = 0; i < n; i++) {
        O f = G(s, KEY[i]); C(f && f->name_is("Subtype", SUBS[sub[i]]), "collection-field");
        O l = G(f, "N"); std::string t; C(l && l->k == pdf::Str && text_string(l->s, t) && t == LAB[i], "collection-field-label");
        unsigned m = (opt + i) & 7;
        C(m & 1 ? G(f, "O") && G(f, "O")->k == pdf::Int && G(f, "O")->i == o[i] : !f->has("O"), "collection-field-order");
        C(m & 2 ? boolean(G(f, "V"), i == 1) : !f->has("V"), "collection-field-visible");
        C(m & 4 ? boolean(G(f, "E"), i != 1) : !f->has("E"), "collection-field-editable");
    }
    capysym_reach("collection");
}
#endif
extern "C" void harness(void) { D dd; d = &dd; body(); }
