// C20: every page carries exactly what the caller attached to it.
#include "features.hpp"
#include "content.hpp"
static D *d;
typedef const pdf::Obj *O;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool box_is(O a, const double *v) { if(!a || a->k != pdf::Array || a->a.size() != 4) return false; bool ok = true; for(int i = 0; i < 4; i++) ok = content::is_num(a->a[i], v[i]) & ok; return ok; }
static bool ref_is(O o, O target) { return o && o->k == pdf::Ref && target && d->out.deref(o) == target; }
static const char *BOX[5] = {"MediaBox", "CropBox", "BleedBox", "TrimBox", "ArtBox"};
static const CapyPDF_Page_Box BOXE[5] = {CAPY_BOX_MEDIA, CAPY_BOX_CROP, CAPY_BOX_BLEED, CAPY_BOX_TRIM, CAPY_BOX_ART};
static void setbox(CapyPDF_PageProperties *p, int b, double *v, const char *name) { for(int i = 0; i < 4; i++) v[i] = symnum_a(name); OK(capy_page_properties_set_pagebox, p, BOXE[b], v[0], v[1], v[2], v[3]); }
static CapyPDF_TransparencyGroupProperties *tprops(CapyPDF_Device_Colorspace cs, int I, int K) {
    CapyPDF_TransparencyGroupProperties *t; OK(capy_transparency_group_properties_new, &t);
    OK(capy_transparency_group_properties_set_CS, t, cs);
    if(I >= 0) OK(capy_transparency_group_properties_set_I, t, I);
    if(K >= 0) OK(capy_transparency_group_properties_set_K, t, K);
    return t;
}
static bool flag(O g, const char *k, int v) { O o = G(g, k); return v < 0 ? !o || (o->k == pdf::Bool && !o->i) : v ? o && o->k == pdf::Bool && o->i : !o || (o->k == pdf::Bool && !o->i); }
static void boxes() {
    static const int masks[] = {0, 1, 2, 4, 8, 16, 21, 31};
    int dm = masks[capysym_choice("default-boxes", 8)], cm = masks[capysym_choice("custom-boxes", 8)], tg = capysym_choice("group", 5), twice = capysym_choice("twice", 2);
    double def[5][4], cus[5][4], dummy[4];
    capysym_numtokens(1);
    CapyPDF_PageProperties *p; OK(capy_page_properties_new, &p);
    for(int b = 0; b < 5; b++) if((dm >> b & 1) && twice) setbox(p, b, dummy, "overwritten");
    for(int b = 0; b < 5; b++) if(dm >> b & 1) setbox(p, b, def[b], "default");
    if(tg & 1) { auto *t = tprops(CAPY_DEVICE_CS_GRAY, 0, 1); OK(capy_page_properties_set_transparency_group_properties, p, t); OK(capy_transparency_group_properties_destroy, t); }
    bool had_default = dm & 1;
    if(!had_default) { def[0][0] = 0; def[0][1] = 0; def[0][2] = 210.5; def[0][3] = 300.25; OK(capy_page_properties_set_pagebox, p, CAPY_BOX_MEDIA, 0, 0, 210.5, 300.25); }
    OK(capy_document_properties_set_default_page_properties, d->dp, p);
    OK(capy_page_properties_set_pagebox, p, CAPY_BOX_MEDIA, 9, 9, 99, 99);      // later changes of the caller's object do not matter
    OK(capy_page_properties_set_pagebox, p, CAPY_BOX_ART, 9, 9, 99, 99);
    OK(capy_page_properties_destroy, p);
    d->open();
    DC *plain = d->page(), *custom = d->page();
    OK(capy_page_properties_new, &p);
    for(int b = 0; b < 5; b++) if(cm >> b & 1) setbox(p, b, cus[b], "custom");
    if(tg == 2 || tg == 3) { auto *t = tprops(CAPY_DEVICE_CS_CMYK, 1, -1); OK(capy_page_properties_set_transparency_group_properties, p, t); OK(capy_transparency_group_properties_destroy, t); }
    OK(capy_dc_set_custom_page_properties, custom, p);
    OK(capy_page_properties_set_pagebox, p, CAPY_BOX_CROP, 9, 9, 99, 99);
    OK(capy_page_properties_destroy, p);
    if(tg == 4) { auto *t = tprops(CAPY_DEVICE_CS_RGB, 1, 1); OK(capy_dc_set_transparency_group_properties, custom, t); OK(capy_transparency_group_properties_destroy, t); }
    int order = twice;
    d->add(order ? custom : plain);
    d->add(order ? plain : custom);
    d->finish();
    O pl = d->pg(order), cu = d->pg(1 - order);
    for(int b = 0; b < 5; b++) {
        bool hd = b == 0 || (dm >> b & 1), hc = cm >> b & 1;
        C(hd ? box_is(G(pl, BOX[b]), def[b]) : !pl->has(BOX[b]), "default-page-box");
        C(hc ? box_is(G(cu, BOX[b]), cus[b]) : hd ? box_is(G(cu, BOX[b]), def[b]) : !cu->has(BOX[b]), "custom-page-box");
    }
    O gp = G(pl, "Group"), gc = G(cu, "Group");
    auto grp = [&](O g, const char *cs, int I, int K) { return g && g->name_is("S", "Transparency") && g->name_is("CS", cs) && flag(g, "I", I) && flag(g, "K", K); };
    C(tg & 1 ? grp(gp, "DeviceGray", 0, 1) : !gp, "default-page-group");
    C(tg == 4 ? grp(gc, "DeviceRGB", 1, 1) : tg == 2 || tg == 3 ? grp(gc, "DeviceCMYK", 1, -1) : tg & 1 ? grp(gc, "DeviceGray", 0, 1) : !gc, "custom-page-group");
    capysym_reach("boxes");
}
static void annots() {
    d->open();
    enum { NA = 3, NP = 2 };
    CapyPDF_AnnotationId id[NA];
    double rect[NA][4], line[4], ll, lle;
    DC *pg[NP];
    int where[NA], leaders = capysym_choice("leaders", 2);
    capysym_numtokens(1);
    for(int i = 0; i < 4; i++) line[i] = symnum_a("line");
    ll = symnum_a("LL"); lle = symnum_a("LLE");
    for(int i = 0; i < NA; i++) {
        CapyPDF_Annotation *a;
        if(i == 0) OK(capy_text_annotation_new, "note", -1, &a);
        else if(i == 1) OK(capy_link_annotation_new, &a);
        else { OK(capy_line_annotation_new, "ln", -1, line[0], line[1], line[2], line[3], &a); if(leaders) OK(capy_annotation_set_line_leader, a, ll, lle); }
        CapyPDF_AnnotationId x;
        C(capy_generator_add_annotation(d->g, a, &x) != 0, "annotation-without-rectangle-accepted");
        for(int k = 0; k < 4; k++) rect[i][k] = symnum_a("rect");
        OK(capy_annotation_set_rectangle, a, rect[i][0], rect[i][1], rect[i][2], rect[i][3]);
        if(i == 1) OK(capy_annotation_set_uri, a, "x:y", -1);
        OK(capy_generator_add_annotation, d->g, a, &id[i]);
        OK(capy_annotation_destroy, a);
    }
    for(int i = 0; i < NP; i++) pg[i] = d->page();
    for(int i = 0; i < NA; i++) {
        where[i] = (int)capysym_choice("where", NP + 1) - 1;
        if(where[i] >= 0) { OK(capy_dc_annotate, pg[where[i]], id[i]); C(capy_dc_annotate(pg[where[i]], id[i]) != 0, "annotation-twice-on-a-page"); }
    }
    int reuse = capysym_choice("reuse", 2);
    d->add(pg[0]);
    if(reuse) {          // an annotation of the first page on another page
        DC *bad = d->page();
        bool any = false;
        for(int i = 0; i < NA; i++) if(where[i] == 0) { any = true; capy_dc_annotate(bad, id[i]); }
        if(any) C(capy_generator_add_page(d->g, bad) != 0, "annotation-on-two-pages");
        OK(capy_dc_destroy, bad);
    }
    d->add(pg[1]);
    d->finish();
    C(d->out.pages().size() == NP, "page-count");
    for(int p = 0; p < NP; p++) {
        O a = G(d->pg(p), "Annots");
        int want = 0, seen = 0;
        for(int i = 0; i < NA; i++) want += where[i] == p;
        C(!want ? !a || a->a.empty() : a && a->k == pdf::Array && (int)a->a.size() == want, "annotations-of-page");
        if(a) for(auto &r : a->a) {
            O x = d->out.deref(&r);
            C(r.k == pdf::Ref && x && x->name_is("Type", "Annot") && ref_is(x->get("P"), d->pg(p)), "annotation-page");
            int k = x->name_is("Subtype", "Text") ? 0 : x->name_is("Subtype", "Link") ? 1 : x->name_is("Subtype", "Line") ? 2 : -1;
            C(k >= 0 && where[k] == p && !(seen >> k & 1), "annotation-on-its-page");
            seen |= 1 << k;
            C(box_is(G(x, "Rect"), rect[k]), "annotation-Rect");
            if(k == 2) {
                C(box_is(G(x, "L"), line), "line-end-points");
                C(leaders ? x->has("LL") && content::is_num(*G(x, "LL"), ll) && x->has("LLE") && content::is_num(*G(x, "LLE"), lle) : !x->has("LL") && !x->has("LLE"), "line-leaders");
            }
        }
    }
    capysym_reach("annots");
}
static void labels() {
    d->open();
    int n = 1 + capysym_choice("labels", 2);
    static const CapyPDF_Page_Label_Number_Style ST[] = {CAPY_PAGE_LABEL_NUMBER_STYLE_DECIMAL, CAPY_PAGE_LABEL_NUMBER_STYLE_ROMAN_UPPER, CAPY_PAGE_LABEL_NUMBER_STYLE_ROMAN_LOWER, CAPY_PAGE_LABEL_NUMBER_STYLE_LETTER_UPPER, CAPY_PAGE_LABEL_NUMBER_STYLE_LETTER_LOWER};
    static const char *SN[] = {"D", "R", "r", "A", "a"};
    struct L { uint32_t start; int style, prefix, num; };
    std::vector<L> ok;
    for(int i = 0; i < n; i++) {
        L l;
        l.start = (uint32_t)capysym_sym("start", 32);
        bool seq = ok.empty() || ok.back().start < l.start;
        if(i == 0) { l.style = (int)capysym_choice("style", 6) - 1; l.prefix = capysym_choice("prefix", 2); l.num = n == 1 ? (int)capysym_choice("number", 2) : 1; }
        else { l.style = ok.empty() ? 1 : (ok[0].style + 2) % 6 - 1; l.prefix = ok.empty() || !ok[0].prefix; l.num = ok.empty() ? 1 : ok[0].style & 1; }
        uint32_t num = 7 + i;
        CapyPDF_Page_Label_Number_Style st = l.style >= 0 ? ST[l.style] : ST[0];
        int rc = capy_generator_add_page_labeling(d->g, l.start, l.style >= 0 ? &st : nullptr, l.prefix ? (i ? "bb" : "aa") : nullptr, -1, l.num ? &num : nullptr);
        l.num = l.num ? (int)num : -1; l.prefix = l.prefix ? i + 1 : 0;
        C((rc == 0) == seq, rc ? "sequential-label-rejected" : "label-range-not-ascending");
        if(rc == 0) { if(l.start > 3) capysym_assume(l.start == 1000000 || l.start == 0xffffffffu); l.start = (uint32_t)capysym_pick(l.start); ok.push_back(l); }
    }
    DC *p = d->page();
    d->add(p);
    d->finish();
    O nums = G(G(d->out.catalog(), "PageLabels"), "Nums");
    C(nums && nums->k == pdf::Array && nums->a.size() == 2 * ok.size(), "page-labels");
    for(size_t i = 0; i < ok.size(); i++) {
        O k = &nums->a[2 * i], v = d->out.deref(&nums->a[2 * i + 1]);
        C(k->k == pdf::Int && k->i == (long)ok[i].start, "label-start");
        C(v && v->k == pdf::Dict, "label");
        C(ok[i].style >= 0 ? v->name_is("S", SN[ok[i].style]) : !v->has("S"), "label-style");
        O pr = v->get("P");
        const char *t = ok[i].prefix == 2 ? "bb" : "aa";
        C(ok[i].prefix ? pr && pr->k == pdf::Str && (pr->s == t || pr->s == std::string("\xfe\xff\0", 3) + t[0] + '\0' + t[1]) : !pr, "label-prefix");
        C(ok[i].num >= 0 ? v->has("St") && v->get("St")->k == pdf::Int && v->get("St")->i == ok[i].num : !v->has("St"), "label-number");
    }
    capysym_reach("labels");
}
static void trans_is(O t, int mask, double D, double SS, long Di) {
    C(t && t->k == pdf::Dict, "transition");
    C(mask & 1 ? t->name_is("S", "Split") : !t->has("S"), "transition-S");
    C(mask & 2 ? t->has("D") && content::is_num(*G(t, "D"), D) : !t->has("D"), "transition-D");
    C(mask & 4 ? t->name_is("Dm", "V") : !t->has("Dm"), "transition-Dm");
    C(mask & 8 ? t->name_is("M", "O") : !t->has("M"), "transition-M");
    C(mask & 16 ? t->has("Di") && G(t, "Di")->k == pdf::Int && G(t, "Di")->i == Di : !t->has("Di"), "transition-Di");
    C(mask & 32 ? t->has("SS") && content::is_num(*G(t, "SS"), SS) : !t->has("SS"), "transition-SS");
    C(mask & 64 ? t->has("B") && G(t, "B")->k == pdf::Bool && G(t, "B")->i : !t->has("B"), "transition-B");
}
static CapyPDF_Transition *mktrans(int mask, double D, double SS, long Di) {
    CapyPDF_Transition *t; OK(capy_transition_new, &t);
    if(mask & 64) OK(capy_transition_set_B, t, 1);
    if(mask & 1) OK(capy_transition_set_S, t, CAPY_TR_SPLIT);
    if(mask & 2) OK(capy_transition_set_D, t, D);
    if(mask & 4) OK(capy_transition_set_Dm, t, CAPY_TR_DIM_V);
    if(mask & 8) OK(capy_transition_set_M, t, CAPY_TR_M_O);
    if(mask & 16) OK(capy_transition_set_Di, t, (uint32_t)Di);
    if(mask & 32) OK(capy_transition_set_SS, t, SS);
    return t;
}
static void transitions() {
    d->open();
    int mask = capysym_choice("fields", 128);
    static const long DI[] = {0, 90, 180, 270, 315};
    long Di = mask & 16 ? DI[mask % 5] : 0;
    double Du = symnum_a("D"), SS = symnum_a("SS");
    capysym_numtokens(1);
    auto *t = mktrans(mask, Du, SS, Di);
    DC *a = d->page(), *b = d->page();
    OK(capy_dc_set_page_transition, a, t);
    OK(capy_transition_destroy, t);
    d->add(a); d->add(b);
    d->finish();
    trans_is(G(d->pg(0), "Trans"), mask, Du, SS, Di);
    C(!d->pg(1)->has("Trans"), "transition-leaks-to-next-page");
    capysym_reach("transitions");
}
static void viewports() {
    d->open();
    int n = capysym_choice("viewports", 3), nx = capysym_choice("X", 3), ny = capysym_choice("Y", 3), meas = capysym_choice("measure", 2);
    double bb[2][4], f[4][2];
    capysym_numtokens(1);
    DC *a = d->page(), *b = d->page();
    for(int i = 0; i < n; i++) {
        for(auto &v : bb[i]) v = symnum_a("bbox");
        CapyPDF_Viewport *vp; OK(capy_viewport_new, bb[i][0], bb[i][1], bb[i][2], bb[i][3], &vp);
        if(meas && i == n - 1) {
            CapyPDF_Measure *m; OK(capy_measure_new, &m);
            for(int s = 0; s < 4; s++) for(int k = 0; k < (s == 0 ? nx : s == 1 ? ny : 1); k++) {
                f[s][k] = symnum_a("factor");
                std::string u = std::string("u") + (char)('a' + s) + (char)('0' + k);
                CapyPDF_NumberFormat *nf; OK(capy_number_format_new, u.c_str(), -1, f[s][k], &nf);
                if(s == 0) OK(capy_measure_append_X, m, nf); else if(s == 1) OK(capy_measure_append_Y, m, nf); else if(s == 2) OK(capy_measure_append_D, m, nf); else OK(capy_measure_append_A, m, nf);
                OK(capy_number_format_destroy, nf);
            }
            OK(capy_viewport_set_measure, vp, m);
            OK(capy_measure_destroy, m);
        }
        OK(capy_dc_append_viewport, a, vp);
        OK(capy_viewport_destroy, vp);
    }
    d->add(a); d->add(b);
    d->finish();
    C(!d->pg(1)->has("VP"), "viewport-leaks-to-next-page");
    O vp = G(d->pg(0), "VP");
    C(n ? vp && vp->k == pdf::Array && (int)vp->a.size() == n : !vp, "viewports");
    for(int i = 0; i < n; i++) {
        O v = d->out.deref(&vp->a[i]);
        C(v && v->name_is("Type", "Viewport") && box_is(G(v, "BBox"), bb[i]), "viewport-BBox");
        O m = G(v, "Measure");
        if(!(meas && i == n - 1)) { C(!m, "viewport-measure"); continue; }
        C(m && m->k == pdf::Dict, "viewport-measure");
        static const char *K[] = {"X", "Y", "D", "A"};
        for(int s = 0; s < 4; s++) {
            O arr = G(m, K[s]);
            size_t want = s == 0 ? nx : s == 1 ? ny : 1;
            C(want ? arr && arr->k == pdf::Array && arr->a.size() == want : !arr || arr->a.empty(), "measure-axis");
            for(size_t k = 0; k < want; k++) {
                O e = d->out.deref(&arr->a[k]);
                std::string u = std::string("u") + (char)('a' + s) + (char)('0' + k);
                C(e && e->has("U") && G(e, "U")->k == pdf::Str && (G(e, "U")->s == u || G(e, "U")->s == "\xef\xbb\xbf" + u || (G(e, "U")->s.size() == 8 && G(e, "U")->s[5] == u[1] && G(e, "U")->s[7] == u[2])), "number-format-unit");
                C(e->has("C") && content::is_num(*G(e, "C"), f[s][k]), "number-format-factor");
            }
        }
    }
    capysym_reach("viewports");
}
static void navigation() {
    d->open();
    DC *p = d->page(), *q = d->page();
    int n = 1 + capysym_choice("nodes", 3), mask = capysym_choice("transition", 2) ? 35 : 4, perm = capysym_choice("order", 2);
    double Du = symnum_a("D"), SS = symnum_a("SS");
    capysym_numtokens(1);
    CapyPDF_OptionalContentGroupId id[4], sel[3];
    for(int i = 0; i < 4; i++) { char nm[3] = {'o', (char)('0' + i), 0}; id[i] = ocg(d->g, nm); }
    for(int i = 0; i < n; i++) sel[i] = id[perm ? 3 - i : i];
    auto *t = mktrans(mask, Du, SS, 0);
    C(capy_dc_add_simple_navigation(p, sel, n, t) != 0, "navigation-over-unused-groups");
    for(int i = 0; i < n; i++) { OK(capy_dc_cmd_BDC_ocg, p, sel[i]); OK(capy_dc_cmd_EMC, p); }
    OK(capy_dc_add_simple_navigation, p, sel, n, t);
    OK(capy_transition_destroy, t);
    d->add(p); d->add(q);
    d->finish();
    C(!d->pg(1)->has("PresSteps"), "navigation-leaks-to-next-page");
    std::vector<O> og(4);
    for(auto &e : d->out.x) if(e.o.name_is("Type", "OCG")) for(int i = 0; i < 4; i++) { O nm = e.o.get("Name"); char c = nm && nm->k == pdf::Str && nm->s.size() ? nm->s.back() : 0; if(c == '0' + i) og[i] = &e.o; }
    for(int i = 0; i < 4; i++) C(og[i], "group");
    auto grp = [&](int i) { return og[perm ? 3 - i : i]; };
    auto state = [&](O act, const char *onoff, int from, int to) {
        C(act && act->name_is("S", "SetOCGState"), "navigation-action");
        O st = G(act, "State");
        C(st && st->k == pdf::Array && (int)st->a.size() == 1 + to - from && st->a[0].is(onoff), "navigation-state");
        for(int i = from; i < to; i++) { bool hit = false; for(size_t k = 1; k < st->a.size(); k++) hit = hit || ref_is(&st->a[k], grp(i)); C(hit, "navigation-group"); }
    };
    O root = G(d->pg(0), "PresSteps");
    C(root && root->name_is("Type", "NavNode"), "navigation-root");
    state(G(root, "NA"), "OFF", 0, n);
    state(G(root, "PA"), "ON", 0, n);
    O prev = nullptr, cur = G(root, "Next");
    for(int i = 0; i < n; i++) {
        C(cur && cur->name_is("Type", "NavNode"), "navigation-node");
        state(G(cur, "NA"), "ON", i, i + 1);
        O nx = G(G(cur, "NA"), "Next");
        C(nx && nx->name_is("S", "Trans"), "navigation-transition");
        trans_is(G(nx, "Trans"), mask, Du, SS, 0);
        if(i) { state(G(cur, "PA"), "OFF", i - 1, i); C(ref_is(cur->get("Prev"), prev), "navigation-Prev"); }
        prev = cur; cur = G(cur, "Next");
    }
    C(cur && cur->name_is("Type", "NavNode") && !cur->has("Next") && !cur->has("NA"), "navigation-end");
    state(G(cur, "PA"), "OFF", n - 1, n);
    C(ref_is(cur->get("Prev"), prev) && ref_is(root->get("Prev"), cur), "navigation-Prev");
    capysym_reach("navigation");
}
static void order() {
    d->open();
    enum { N = 3 };
    DC *p[N];
    int a[N], n = 0;
    for(int i = 0; i < N; i++) { p[i] = d->page(); OK(capy_dc_cmd_w, p[i], i + 1); }
    // any order of adding, with repetitions of an already emptied context
    for(int i = 0; i < N; i++) { a[n] = (int)capysym_choice("page", N); n++; }
    bool used[N] = {};
    std::vector<int> want;
    for(int i = 0; i < n; i++) {
        if(used[a[i]]) { OK(capy_dc_cmd_J, p[a[i]], CAPY_LC_ROUND); want.push_back(100); } else want.push_back(a[i] + 1);
        used[a[i]] = true;
        d->add(p[a[i]]);
    }
    d->finish();
    C(d->out.pages().size() == want.size(), "page-count");
    for(size_t i = 0; i < want.size(); i++) {
        auto ops = content::parse(d->contents(d->pg(i)));
        C(ops.size() == 1 && (want[i] == 100 ? ops[0].op == "J" : ops[0].op == "w" && content::is_num(ops[0].args[0], want[i])), "page-order");
    }
    capysym_reach("order");
}
extern "C" void harness(void) {
    D dd; d = &dd;
    #ifndef PART
#define PART capysym_choice("part", 7)
#endif
    switch(PART) {
    case 0: boxes(); break;
    case 1: annots(); break;
    case 2: labels(); break;
    case 3: transitions(); break;
    case 4: viewports(); break;
    case 5: navigation(); break;
    case 6: order(); break;
    }
}
