// C19: the outline tree and link destinations lead where the caller said.
#include "features.hpp"
#include "content.hpp"
static D *d;
static bool ref_is(const pdf::Obj *o, const pdf::Obj *target) { return o && o->k == pdf::Ref && d->out.deref(o) == target; }
static const pdf::Obj *titled(const std::string &t) {
    const pdf::Obj *r = nullptr;
    for(auto &e : d->out.x) { auto *x = e.o.get("Title"); if(x && x->k == pdf::Str && (x->s == t || x->s == "\xef\xbb\xbf" + t || (x->s.size() == 6 && x->s[3] == t[0] && x->s[5] == t[1]))) { if(!e.o.has("Producer")) { C(!r, "item-once"); r = &e.o; } } }
    C(r, "item-present");
    return r;
}
static void check_level(const std::vector<int> &kids, const pdf::Obj *parent, const std::vector<const pdf::Obj *> &item) {
    if(kids.empty()) { C(!parent->has("First") && !parent->has("Last") && !parent->has("Count"), "leaf-has-children"); return; }
    C(ref_is(parent->get("First"), item[kids.front()]), "outline-First");
    C(ref_is(parent->get("Last"), item[kids.back()]), "outline-Last");
    for(size_t i = 0; i < kids.size(); i++) {
        auto *o = item[kids[i]];
        C(ref_is(o->get("Parent"), parent), "outline-Parent");
        if(i) C(ref_is(o->get("Prev"), item[kids[i - 1]]), "outline-Prev"); else C(!o->has("Prev"), "outline-Prev");
        if(i + 1 < kids.size()) C(ref_is(o->get("Next"), item[kids[i + 1]]), "outline-Next"); else C(!o->has("Next"), "outline-Next");
    }
}
#ifdef TREE
extern "C" void harness(void) {
    D dd; d = &dd;
    if(capysym_choice("debug", 2)) d->debug();
    d->open();
    DC *p0 = d->page(); d->add(p0);
    int n = 1 + capysym_choice("items", TREE), bad = capysym_choice("failed-add", 3), badat = bad ? capysym_choice("failed-at", n) : -1;
    std::vector<int> parent(n, -1);
    std::vector<CapyPDF_OutlineId> id(n);
    for(int i = 0; i < n; i++) {
        char t[3] = {'T', (char)('0' + i), 0};
        if(i == badat) {       // a rejected item must leave no trace
            CapyPDF_Outline *o; CapyPDF_OutlineId x;
            OK(capy_outline_new, &o);
            if(bad == 1) { if(i) OK(capy_outline_set_parent, o, id[i - 1]); }
            else { OK(capy_outline_set_title, o, "BAD", -1); OK(capy_outline_set_parent, o, CapyPDF_OutlineId{i}); }
            C(capy_generator_add_outline(d->g, o, &x) != 0, "bad-item-accepted");
            OK(capy_outline_destroy, o);
        }
        parent[i] = i ? (int)capysym_choice("parent", i + 1) - 1 : -1;
        CapyPDF_Outline *o;
        OK(capy_outline_new, &o);
        OK(capy_outline_set_title, o, t, -1);
        if(parent[i] >= 0) OK(capy_outline_set_parent, o, id[parent[i]]);
        if(i & 1) { auto *x = dest(0); OK(capy_outline_set_destination, o, x); OK(capy_destination_destroy, x); }
        OK(capy_generator_add_outline, d->g, o, &id[i]);
        OK(capy_outline_destroy, o);
        for(int k = 0; k < i; k++) C(id[k].id != id[i].id, "ids-distinct");
    }
    OK(capy_generator_write, d->g);
    d->parse();
    std::vector<const pdf::Obj *> item(n);
    size_t have = 0;
    for(auto &e : d->out.x) if(e.o.has("Title") && !e.o.has("Producer")) have++;
    C(have == (size_t)n, "item-count");
    for(int i = 0; i < n; i++) item[i] = titled(std::string("T") + (char)('0' + i));
    auto *root = d->out.get(d->out.catalog(), "Outlines");
    C(root && root->k == pdf::Dict && root->name_is("Type", "Outlines") && !root->has("Parent"), "outline-root");
    for(int p = -1; p < n; p++) {
        std::vector<int> kids;
        for(int i = 0; i < n; i++) if(parent[i] == p) kids.push_back(i);
        auto *o = p < 0 ? root : item[p];
        check_level(kids, o, item);
        auto *c = o->get("Count");
        // every item is closed: the root shows its direct children, a closed item has minus that many
        if(kids.size()) C(c && c->k == pdf::Int && c->i == (p < 0 ? (long)kids.size() : -(long)kids.size()), "outline-Count");
        if(p >= 0) {
            C(o->has("Dest") == (p & 1), "item-Dest");
            C(!o->has("C") && !o->has("F"), "item-unset-attributes");
        }
    }
    capysym_reach("done");
}
#else
extern "C" void harness(void) {
    D dd; d = &dd;
    d->open();
    int site = capysym_choice("site", 2), npages = 1 + capysym_choice("pages", 3), kind = capysym_choice("kind", 9);
    int attrs = site || (kind != 8 && kind != 5) ? 0 : capysym_choice("attrs", 4), late = kind >= 7 && !attrs && !site ? capysym_choice("late", 2) : 0;
    int32_t page = (int32_t)capysym_sym("page", 32);
    std::vector<DC *> pages;
    auto mkpage = [&](int i) { DC *p = d->page(); CapyPDF_PageProperties *pp; OK(capy_page_properties_new, &pp); OK(capy_page_properties_set_pagebox, pp, CAPY_BOX_MEDIA, 0, 0, 100 + i, 50); OK(capy_dc_set_custom_page_properties, p, pp); OK(capy_page_properties_destroy, pp); return p; };
    for(int i = 0; i < npages; i++) pages.push_back(mkpage(i));
    double c[3] = {}, col[3] = {};
    for(int i = 0; i < 3; i++) { if(kind < 8) c[i] = symnum_a("coordinate"); if(attrs & 1) col[i] = symnum("colour"); }
    capysym_numtokens(1);
    CapyPDF_Destination *ds;
    OK(capy_destination_new, &ds);
    int rc;
    if(kind < 8) { if(late) OK(capy_destination_set_page_fit, ds, 0); rc = capy_destination_set_page_xyz(ds, page, kind & 1 ? &c[0] : nullptr, kind & 2 ? &c[1] : nullptr, kind & 4 ? &c[2] : nullptr); }
    else { if(late) OK(capy_destination_set_page_xyz, ds, 0, c, c, c); rc = capy_destination_set_page_fit(ds, page); }
    bool valid = page >= 0 && page < npages;
    if(rc) { C(!valid, "valid-page-rejected"); capysym_reach("rejected"); return; }
    auto put = [&]() {
        if(site == 0) {
            CapyPDF_Outline *o; CapyPDF_OutlineId id;
            OK(capy_outline_new, &o);
            OK(capy_outline_set_title, o, "T0", -1);
            OK(capy_outline_set_destination, o, ds);
            if(attrs & 1) OK(capy_outline_set_C, o, col[0], col[1], col[2]);
            if(attrs & 2) OK(capy_outline_set_F, o, 2);
            rc = capy_generator_add_outline(d->g, o, &id);
            OK(capy_outline_destroy, o);
        } else {
            CapyPDF_Annotation *a; CapyPDF_AnnotationId id;
            OK(capy_link_annotation_new, &a);
            rc = capy_annotation_set_destination(a, ds);
            if(rc == 0) { OK(capy_annotation_set_rectangle, a, 1, 2, 3, 4); rc = capy_generator_add_annotation(d->g, a, &id); }
            if(rc == 0) OK(capy_dc_annotate, pages[0], id);
            OK(capy_annotation_destroy, a);
        }
    };
    if(!late) put();
    if(rc == 0) for(auto *p : pages) d->add(p);
    if(late) put();
    if(rc == 0) rc = capy_generator_write(d->g);
    if(rc) { C(!valid, "valid-page-rejected"); capysym_reach("rejected"); return; }
    C(valid, "invalid-page-accepted");
    page = (int32_t)capysym_pick(page);
    d->parse();
    const pdf::Obj *o = nullptr;
    if(site == 0) o = titled("T0");
    else { auto *a = d->out.get(d->pg(0), "Annots"); C(a && a->k == pdf::Array && a->a.size() == 1, "annotation"); o = d->out.deref(&a->a[0]); C(o->name_is("Subtype", "Link") && !o->has("A"), "annotation"); }
    auto *x = d->out.get(o, "Dest");
    C(x && x->k == pdf::Array && x->a.size() >= 2, "destination");
    C(x->a[0].k == pdf::Ref && d->out.deref(&x->a[0]) == d->pg(page), "destination-page");
    auto *mb = d->out.get(d->pg(page), "MediaBox");
    C(mb && mb->k == pdf::Array && mb->a.size() == 4 && content::is_num(mb->a[2], 100 + page), "destination-is-the-physical-page");
    if(kind == 8) C(x->a[1].is("Fit") && x->a.size() == 2, "destination-Fit");
    else {
        C(x->a[1].is("XYZ") && x->a.size() == 5, "destination-XYZ");
        for(int i = 0; i < 3; i++) if(kind >> i & 1) C(content::is_num(x->a[2 + i], c[i]), "destination-coordinate"); else C(x->a[2 + i].k == pdf::Null, "destination-omitted-coordinate");
    }
    if(site == 0) {
        auto *cc = o->get("C");
        if(attrs & 1) { C(cc && cc->k == pdf::Array && cc->a.size() == 3, "outline-C"); for(int i = 0; i < 3; i++) C(content::is_num(cc->a[i], clamp01(col[i])), "outline-C"); } else C(!cc, "outline-C");
        auto *f = o->get("F");
        if(attrs & 2) C(f && f->k == pdf::Int && f->i == 2, "outline-F"); else C(!f || f->i == 0, "outline-F");
    }
    capysym_reach("accepted");
}
#endif
