// C21: a draw context is added completely or stays as it was; after it has been added it is as good as new.
#include "features.hpp"
#include "content.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g, *g2;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool is_nums(O o, const double *v, int n) { if(!o || o->k != pdf::Array || (int)o->a.size() != n) return false; bool ok = true; for(int i = 0; i < n; i++) ok = content::is_num(o->a[i], v[i]) & ok; return ok; }
enum { PAGE, FORM, GROUP, TILING };
static double bbox[4], mat[6], num[6];
static CapyPDF_FormXObjectId fid; static CapyPDF_TransparencyGroupId tid; static CapyPDF_PatternId pid;
static DC *fresh(Gen *gen, int k) {
    DC *c;
    if(k == PAGE) OK(capy_page_draw_context_new, gen, &c);
    else if(k == FORM) OK(capy_form_xobject_new, gen, bbox[0], bbox[1], bbox[2], bbox[3], &c);
    else if(k == GROUP) OK(capy_transparency_group_new, gen, bbox[0], bbox[1], bbox[2], bbox[3], &c);
    else OK(capy_tiling_pattern_context_new, gen, &c, bbox[0], bbox[1], bbox[2], bbox[3]);
    return c;
}
static int add(Gen *gen, int adder, DC *c) {
    switch(adder) {
    case PAGE: return capy_generator_add_page(gen, c);
    case FORM: return capy_generator_add_form_xobject(gen, c, &fid);
    case GROUP: return capy_generator_add_transparency_group(gen, c, &tid);
    default: return capy_generator_add_tiling_pattern(gen, c, &pid);
    }
}
// puts the most recently added object of the kind to use, so it can be found
static void show(int k, DC *pg) {
    if(k == FORM) { CapyPDF_Annotation *a; OK(capy_printers_mark_annotation_new, fid, &a); OK(capy_dc_annotate, pg, annot(g, a)); }
    if(k == GROUP) OK(capy_dc_cmd_Do_trgroup, pg, tid);
    if(k == TILING) { CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_pattern, c, pid); OK(capy_dc_set_stroke, pg, c); }
}
static O shown(int k, O pg) {
    O r = G(pg, "Resources"), c = nullptr;
    if(k == FORM) { O an = G(pg, "Annots"); C(an && an->a.size() == 1, "shown"); c = G(G(d->out.deref(&an->a[0]), "AP"), "N"); }
    else { O cat = G(r, k == GROUP ? "XObject" : "Pattern"); C(cat && cat->k == pdf::Dict && cat->keys.size() == 1, "shown"); c = d->out.deref(&cat->a[0]); }
    C(c, "shown");
    return c;
}
static CapyPDF_GraphicsStateId gstate(double fl) { CapyPDF_GraphicsState *s; CapyPDF_GraphicsStateId x; OK(capy_graphics_state_new, &s); OK(capy_graphics_state_set_FL, s, fl); OK(capy_generator_add_graphics_state, g, s, &x); OK(capy_graphics_state_destroy, s); return x; }
static std::vector<std::string> ops_of(O o) { std::string s; O c = o->get("Contents"); C(d->out.content(c ? c->i : d->out.objnum(o), s), "content"); std::vector<std::string> r; for(auto &x : content::parse(s)) r.push_back(x.op); return r; }
// what every attribute setter says in each kind of context
static void setters(DC *c, int k, int which) {
    int rc;
    switch(which) {
    case 0: rc = capy_dc_set_group_matrix(c, mat[0], mat[1], mat[2], mat[3], mat[4], mat[5]); C((rc == 0) == (k != PAGE), "verdict:matrix"); break;
    case 1: { CapyPDF_TransparencyGroupProperties *p; OK(capy_transparency_group_properties_new, &p); OK(capy_transparency_group_properties_set_CS, p, CAPY_DEVICE_CS_CMYK); OK(capy_transparency_group_properties_set_I, p, 1); rc = capy_dc_set_transparency_group_properties(c, p); C((rc == 0) == (k == PAGE || k == GROUP), "verdict:group"); OK(capy_transparency_group_properties_destroy, p); break; }
    case 2: { auto *t = transition(); rc = capy_dc_set_page_transition(c, t); C((rc == 0) == (k == PAGE), "verdict:transition"); OK(capy_transition_destroy, t); break; }
    case 3: { CapyPDF_PageProperties *p; OK(capy_page_properties_new, &p); OK(capy_page_properties_set_pagebox, p, CAPY_BOX_MEDIA, 1, 2, 33, 44); OK(capy_page_properties_set_pagebox, p, CAPY_BOX_ART, 5, 6, 7, 8); rc = capy_dc_set_custom_page_properties(c, p); C((rc == 0) == (k == PAGE), "verdict:page-properties"); OK(capy_page_properties_destroy, p); break; }
    case 4: { CapyPDF_Viewport *v; CapyPDF_Measure *m; OK(capy_viewport_new, 1, 2, 3, 4, &v); OK(capy_measure_new, &m); OK(capy_viewport_set_measure, v, m); OK(capy_measure_destroy, m); rc = capy_dc_append_viewport(c, v); C((rc == 0) == (k == PAGE), "verdict:viewport"); OK(capy_viewport_destroy, v); break; }
    case 5: { CapyPDF_Annotation *a; OK(capy_text_annotation_new, "hi", -1, &a); rc = capy_dc_annotate(c, annot(g, a)); C((rc == 0) == (k == PAGE), "verdict:annotation"); break; }
    case 6: { auto s = sitem(g, CAPY_STRUCTURE_TYPE_P); rc = capy_dc_cmd_BDC_builtin(c, s, nullptr); C((rc == 0) == (k == PAGE), "verdict:structure"); if(rc == 0) OK(capy_dc_cmd_EMC, c); break; }
    case 7: { auto o = ocg(g, "nav"); OK(capy_dc_cmd_BDC_ocg, c, o); OK(capy_dc_cmd_EMC, c); auto *t = transition(); rc = capy_dc_add_simple_navigation(c, &o, 1, t); C((rc == 0) == (k == PAGE), "verdict:navigation"); OK(capy_transition_destroy, t); C(capy_dc_add_simple_navigation(c, &o, 1, nullptr) != 0, "verdict:second-navigation"); break; }
    }
}
enum { NSET = 8 };
static void check_attributes(O o, int k, int which, bool set) {
    if(k != PAGE) {
        C(set && which == 0 ? is_nums(G(o, "Matrix"), mat, 6) : !o->has("Matrix"), "matrix");
        C(is_nums(G(o, "BBox"), bbox, 4), "bbox");
        O gr = G(o, "Group");
        C(set && which == 1 && k == GROUP ? gr && gr->name_is("S", "Transparency") && gr->name_is("CS", "DeviceCMYK") : !gr, "group");
        C(!o->has("Trans") && !o->has("VP") && !o->has("Annots") && !o->has("StructParents") && !o->has("PresSteps"), "page-entries");
        if(k == TILING) {
            C(o->name_is("Type", "Pattern") && content::is_num(*G(o, "PatternType"), 1) && content::is_num(*G(o, "PaintType"), 1) && content::is_num(*G(o, "TilingType"), 1), "tiling");
            O x = G(o, "XStep"), y = G(o, "YStep");
            C(x && y && content::is_num(*x, bbox[2] - bbox[0]) && content::is_num(*y, bbox[3] - bbox[1]), "tiling-step");
        } else C(o->name_is("Type", "XObject") && o->name_is("Subtype", "Form"), "form");
        return;
    }
    C(!o->has("Matrix") && !o->has("BBox"), "page-has-form-entries");
    O gr = G(o, "Group"), mb = G(o, "MediaBox"), vp = G(o, "VP"), an = G(o, "Annots");
    bool s1 = set && which == 1, s3 = set && which == 3, s4 = set && which == 4, s5 = set && which == 5;
    C(s1 ? gr && gr->name_is("CS", "DeviceCMYK") : !gr, "group");
    C(o->has("Trans") == (set && which == 2), "transition");
    C(mb && content::is_num(mb->a[0], s3 ? 1 : 0) && o->has("ArtBox") == s3, "page-boxes");
    C(s4 ? vp && vp->a.size() == 1 : !vp, "viewport");
    C(s5 ? an && an->a.size() == 1 : !an, "annotations");
    C(o->has("StructParents") == (set && which == 6), "structure");
    C(o->has("PresSteps") == (set && which == 7), "navigation");
}
extern "C" void harness(void) {
    D dd, d2; d = &dd;
    d->open(); g = d->g;
    d2.fname = "/m/other.pdf"; d2.open(); g2 = d2.g;
    capysym_numtokens(1);
    int k = capysym_choice("kind", 4), which = capysym_choice("attribute", NSET), open = capysym_choice("open", 4), wrong = capysym_choice("adder", 4), foreign = capysym_choice("document", 2);
    if(k == PAGE && which == 0) {}      // matrix is refused
    for(auto &v : bbox) v = 0;
    static const double lo[4] = {0, 0, 0, 0};
    (void)lo;
    if(k != PAGE) { bbox[0] = symnum("x1", false) ; bbox[1] = -symnum("y1", false); bbox[2] = 2048 + symnum("x2", false); bbox[3] = 2048 + symnum("y2", false); }
    if(which == 0 && k != PAGE) for(auto &v : mat) v = symnum_a("matrix");
    if(which) for(auto &v : mat) v = 1;
    for(auto &v : num) v = symnum_a("operand");
    auto st = gstate(1), st2 = gstate(2);
    DC *c = fresh(g, k), *never = fresh(g, k);
    // a context that is never added leaves nothing behind
    OK(capy_dc_cmd_re, never, 5, 5, 5, 5); setters(never, k, which == 5 || which == 6 ? 0 : which);
    setters(c, k, which);
    OK(capy_dc_cmd_re, c, num[0], num[1], num[2], num[3]);
    OK(capy_dc_cmd_gs, c, st);
    // refused additions
    const char *end = nullptr;
    if(open == 1) { OK(capy_dc_cmd_q, c); end = "Q"; }
    if(open == 2) { OK(capy_dc_cmd_BMC, c, "M"); end = "EMC"; }
    if(open == 3) { OK(capy_dc_cmd_BMC, c, "M"); OK(capy_dc_cmd_q, c); end = "Q"; }
    for(int again = 0; again < 2; again++) {
        Gen *gen = foreign ? g2 : g;
        if(wrong != k || foreign || open) { C(add(gen, wrong, c) != 0, "unfit-context-accepted"); }
        if(open) C(add(g, k, c) != 0, "unbalanced-context-accepted");
    }
    if(open == 1 || open == 3) OK(capy_dc_cmd_Q, c);
    if(open == 2 || open == 3) OK(capy_dc_cmd_EMC, c);
    OK(capy_dc_cmd_l, c, num[4], num[5]);
    C(add(g, k, c) == 0, "repaired-context-refused");
    DC *pg = d->page();
    if(k != PAGE) { show(k, pg); d->add(pg); }
    // the same context again, and a fresh one that draws the same
    DC *f = fresh(g, k);
    for(DC *x : {c, f}) {
        OK(capy_dc_cmd_w, x, 2); OK(capy_dc_cmd_gs, x, st2); OK(capy_dc_cmd_n, x);
        C(add(g, k, x) == 0, "reused-context-refused");
        if(k != PAGE) { show(k, pg); d->add(pg); }
    }
    OK(capy_dc_destroy, never); OK(capy_dc_destroy, c); OK(capy_dc_destroy, f); OK(capy_dc_destroy, pg);
    d->finish();
    C(d->out.pages().size() == 3, "page-count");
    size_t forms = 0;
    for(auto &e : d->out.x) if(e.o.name_is("Subtype", "Form") || e.o.name_is("Type", "Pattern")) forms++;
    C(forms == (k == PAGE ? 0u : 3u), "objects-of-the-kind");
    O o[3];
    for(int i = 0; i < 3; i++) { o[i] = d->pg(i); if(k != PAGE) o[i] = shown(k, o[i]); }
    for(int i = 0; i < 3; i++) {
        check_attributes(o[i], k, which, i == 0);
        std::vector<std::string> want = {"w", "gs", "n"}, pre;
        if(i == 0) {
            if(k == PAGE && which == 6) pre = {"BDC", "EMC"};
            if(which == 7) pre = {"BDC", "EMC"};
            pre.push_back("re"); pre.push_back("gs");
            if(open == 1) pre.insert(pre.end(), {"q", "Q"});
            if(open == 2) pre.insert(pre.end(), {"BMC", "EMC"});
            if(open == 3) pre.insert(pre.end(), {"BMC", "q", "Q", "EMC"});
            pre.push_back("l");
            want = pre;
        }
        C(ops_of(o[i]) == want, "content-complete");
        O res = G(o[i], "Resources"), gs = G(res, "ExtGState");
        C(gs && gs->k == pdf::Dict && gs->keys.size() == 1, "resources");
        C(content::is_num(*G(d->out.deref(&gs->a[0]), "FL"), i == 0 ? 1 : 2), "resources");
        C(res->keys.size() == (i == 0 && which == 7 ? 2u : 1u), "resources");
    }
    std::string s; O cn = o[0]->get("Contents"); d->out.content(cn ? cn->i : d->out.objnum(o[0]), s);
    for(auto &x : content::parse(s)) {
        if(x.op == "re") C(content::nums(x, {num[0], num[1], num[2], num[3]}), "content-operands");
        if(x.op == "l") C(content::nums(x, {num[4], num[5]}), "content-operands");
    }
    capysym_reach("done");
}
