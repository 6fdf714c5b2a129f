// C04: what each drawing call writes into the content stream.
#include "features.hpp"
#include "content.hpp"
using content::nums;
struct X { const char *op; std::vector<double> v; int kind = 0; };   // kind 0: numbers; 1: name operand; 2: dash array; 3: single integer
static std::vector<X> want;
static DC *dc;
static std::string last_name;
// one call; records what must appear when it is accepted
static int call(int k, double a, double b, double c, double d, double e, double f, int n) {
    int rc;
    auto W = [&](const char *op, std::vector<double> v = {}, int kind = 0) { if(rc == 0) want.push_back({op, std::move(v), kind}); };
    double z = 0;
    switch(k) {
    case 0: rc = capy_dc_cmd_b(dc); W("b"); break;
    case 1: rc = capy_dc_cmd_B(dc); W("B"); break;
    case 2: rc = capy_dc_cmd_bstar(dc); W("b*"); break;
    case 3: rc = capy_dc_cmd_Bstar(dc); W("B*"); break;
    case 4: rc = capy_dc_cmd_f(dc); W("f"); break;
    case 5: rc = capy_dc_cmd_fstar(dc); W("f*"); break;
    case 6: rc = capy_dc_cmd_h(dc); W("h"); break;
    case 7: rc = capy_dc_cmd_n(dc); W("n"); break;
    case 8: rc = capy_dc_cmd_s(dc); W("s"); break;
    case 9: rc = capy_dc_cmd_S(dc); W("S"); break;
    case 10: rc = capy_dc_cmd_W(dc); W("W"); break;
    case 11: rc = capy_dc_cmd_Wstar(dc); W("W*"); break;
    case 12: rc = capy_dc_cmd_c(dc, a, b, c, d, e, f); W("c", {a, b, c, d, e, f}); break;
    case 13: rc = capy_dc_cmd_cm(dc, a, b, c, d, e, f); W("cm", {a, b, c, d, e, f}); break;
    case 14: rc = capy_dc_cmd_l(dc, a, b); W("l", {a, b}); break;
    case 15: rc = capy_dc_cmd_m(dc, a, b); W("m", {a, b}); break;
    case 16: rc = capy_dc_cmd_re(dc, a, b, c, d); W("re", {a, b, c, d}); break;
    case 17: rc = capy_dc_cmd_v(dc, a, b, c, d); W("v", {a, b, c, d}); break;
    case 18: rc = capy_dc_cmd_y(dc, a, b, c, d); W("y", {a, b, c, d}); break;
    case 19: rc = capy_dc_cmd_M(dc, a); C(rc == 0, "accepted:M"); W("M", {a}); break;
    case 20: rc = capy_dc_cmd_w(dc, a); C((rc == 0) == !(a < 0), "verdict:w"); W("w", {a}); break;
    case 21: rc = capy_dc_cmd_i(dc, a); C((rc == 0) == !(a < 0 || a > 100), "verdict:i"); W("i", {a}); break;
    case 22: rc = capy_dc_cmd_G(dc, a); W("G", {clamp01(a)}); break;
    case 23: rc = capy_dc_cmd_g(dc, a); W("g", {clamp01(a)}); break;
    case 24: rc = capy_dc_cmd_RG(dc, a, b, c); W("RG", {clamp01(a), clamp01(b), clamp01(c)}); break;
    case 25: rc = capy_dc_cmd_rg(dc, a, b, c); W("rg", {clamp01(a), clamp01(b), clamp01(c)}); break;
    case 26: rc = capy_dc_cmd_K(dc, a, b, c, d); W("K", {clamp01(a), clamp01(b), clamp01(c), clamp01(d)}); break;
    case 27: rc = capy_dc_cmd_k(dc, a, b, c, d); W("k", {clamp01(a), clamp01(b), clamp01(c), clamp01(d)}); break;
    case 28: { double arr[3] = {a, b, c}; int len = 1 + n % 3; bool bad = false; for(int i = 0; i < len; i++) bad |= arr[i] < 0; rc = capy_dc_cmd_d(dc, arr, len, d); C((rc == 0) == !bad, "verdict:d"); std::vector<double> v(arr, arr + len); v.push_back(d); W("d", v, 2); break; }
    case 29: { double arr[1] = {a}; rc = capy_dc_cmd_d(dc, arr, 0, d); C(rc != 0, "verdict:d-empty"); break; }
    case 30: rc = capy_dc_cmd_j(dc, (CapyPDF_Line_Join)n); C((rc == 0) == (n >= 0 && n <= 2), "verdict:j"); W("j", {(double)n}, 3); break;
    case 31: rc = capy_dc_cmd_J(dc, (CapyPDF_Line_Cap)n); C((rc == 0) == (n >= 0 && n <= 2), "verdict:J"); W("J", {(double)n}, 3); break;
    case 32: rc = capy_dc_cmd_ri(dc, (CapyPDF_Rendering_Intent)n); C((rc == 0) == (n >= 0 && n <= 3), "verdict:ri"); W("ri", {(double)n}, 1); break;
    case 33: { auto *co = rgb(a, b, c); rc = n & 1 ? capy_dc_set_stroke(dc, co) : capy_dc_set_nonstroke(dc, co); W(n & 1 ? "RG" : "rg", {clamp01(a), clamp01(b), clamp01(c)}); capy_color_destroy(co); break; }
    case 34: { auto *co = gray(a); rc = n & 1 ? capy_dc_set_stroke(dc, co) : capy_dc_set_nonstroke(dc, co); W(n & 1 ? "G" : "g", {clamp01(a)}); capy_color_destroy(co); break; }
    // text objects
    case 35: case 36: case 37: case 38: case 39: case 40: case 41: case 42: case 43: case 44: case 45: case 46: case 47: case 48: {
        CapyPDF_Text *t;
        OK(capy_dc_text_new, dc, &t);
        size_t before = want.size();
        want.push_back({"BT", {}, 0});
        switch(k) {
        case 35: rc = capy_text_cmd_Tc(t, a); W("Tc", {a}); break;
        case 36: rc = capy_text_cmd_Td(t, a, b); W("Td", {a, b}); break;
        case 37: rc = capy_text_cmd_TD(t, a, b); W("TD", {a, b}); break;
        case 38: rc = capy_text_cmd_TL(t, a); W("TL", {a}); break;
        case 39: rc = capy_text_cmd_Tm(t, a, b, c, d, e, f); W("Tm", {a, b, c, d, e, f}); break;
        case 40: rc = capy_text_cmd_Tr(t, (CapyPDF_Text_Mode)n); W("Tr", {(double)n}, 3); break;
        case 41: rc = capy_text_cmd_Tstar(t); W("T*"); break;
        case 42: rc = capy_text_cmd_w(t, a); W("w", {a}); break;
        case 43: rc = capy_text_cmd_M(t, a); W("M", {a}); break;
        case 44: rc = capy_text_cmd_j(t, (CapyPDF_Line_Join)n); W("j", {(double)n}, 3); break;
        case 45: rc = capy_text_cmd_J(t, (CapyPDF_Line_Cap)n); W("J", {(double)n}, 3); break;
        case 46: { double arr[3] = {a, b, c}; int len = 1 + n % 3; rc = capy_text_cmd_d(t, arr, len, d); std::vector<double> v(arr, arr + len); v.push_back(d); W("d", v, 2); break; }
        case 47: { auto *co = rgb(a, b, c); rc = n & 1 ? capy_text_set_stroke(t, co) : capy_text_set_nonstroke(t, co); W(n & 1 ? "RG" : "rg", {clamp01(a), clamp01(b), clamp01(c)}); capy_color_destroy(co); break; }
        case 48: { auto *co = cmyk(a, b, c, d); rc = n & 1 ? capy_text_set_stroke(t, co) : capy_text_set_nonstroke(t, co); W(n & 1 ? "K" : "k", {clamp01(a), clamp01(b), clamp01(c), clamp01(d)}); capy_color_destroy(co); break; }
        }
        want.push_back({"ET", {}, 0});
        if(rc) { want.resize(before); OK(capy_text_destroy, t); break; }
        rc = capy_dc_render_text_obj(dc, t);
        OK(capy_text_destroy, t);
        bool ok = true;
        if(k == 40) ok = n >= 0 && n <= 7;
        if(k == 42) ok = !(a < 0);
        if(k == 44 || k == 45) ok = n >= 0 && n <= 2;
        if(k == 46) { int len = 1 + n % 3; double arr[3] = {a, b, c}; for(int i = 0; i < len; i++) ok &= !(arr[i] < 0); }
        C((rc == 0) == ok, "verdict:text");
        if(rc) want.resize(before);
        break; }
    default: rc = -1; (void)z;
    }
    return rc;
}
enum { NCALL = 49 };
static const char *RI[] = {"RelativeColorimetric", "AbsoluteColorimetric", "Saturation", "Perceptual"};
static void compare(const std::vector<content::Op> &got) {
    size_t i = 0;
    C(got.size() == want.size(), "operator-count");
    for(auto &x : want) {
        auto &o = got[i++];
        C(o.op == x.op, "operator");
        bool ok = true;
        if(x.kind == 0) { ok = o.args.size() == x.v.size(); for(size_t j = 0; ok && j < x.v.size(); j++) C(content::is_num(o.args[j], x.v[j]), "operand-value"); }
        else if(x.kind == 3) ok = o.args[0].i == (long)x.v[0];
        else if(x.kind == 1) ok = o.args[0].is(RI[(int)x.v[0]]);
        else { ok = o.args[0].a.size() == x.v.size() - 1; for(size_t j = 0; ok && j + 1 < x.v.size(); j++) C(content::is_num(o.args[0].a[j], x.v[j]), "dash-value"); C(content::is_num(o.args[1], x.v.back()), "dash-phase"); }
        C(ok, "operands");
    }
}
#ifdef OPS1
extern "C" void harness(void) {
    capysym_numtokens(1);
    int k = capysym_choice("call", NCALL);
    int ctx = capysym_choice("context", 4);
    bool many = k == 12 || k == 13 || k == 16 || k == 39 || (k >= 24 && k <= 28) || k == 33 || k >= 46;
    (void)many;
    bool enumk = k >= 30 && k <= 32, tenum = k == 40 || k == 44 || k == 45;
    int n = enumk || tenum ? (int)capysym_pick(capysym_range("value", -2, 9)) : k == 28 || k == 46 || k == 33 || k == 34 || k >= 47 ? capysym_choice("variant", 6) : 0;
    double v[6];
    static const char *nm[] = {"a", "b", "c", "d", "e", "f"};
    for(int i = 0; i < 6; i++) v[i] = symnum(nm[i]);
    // colour components outside 0..1 are clamped: the sign and size of one of them is free, the others stay inside
    if((k >= 24 && k <= 27) || k == 33 || k >= 47) for(int i = 1; i < 6; i++) v[i] = symnum(nm[i], false) / 1024;
    D d;
    d.open();
    DC *page = nullptr;
    if(ctx == 0) dc = d.page();
    else if(ctx == 1) OK(capy_form_xobject_new, d.g, 0, 0, 20, 20, &dc);
    else if(ctx == 2) OK(capy_transparency_group_new, d.g, 0, 0, 20, 20, &dc);
    else OK(capy_tiling_pattern_context_new, d.g, &dc, 0, 0, 20, 20);
    OK(capy_dc_cmd_q, dc);
    want.push_back({"q", {}, 0});
    bool bm = n & 1;
    if(bm) { OK(capy_dc_cmd_BMC, dc, "tag"); want.push_back({"BMC", {}, 9}); }
    int rc = call(k, v[0], v[1], v[2], v[3], v[4], v[5], n);
    if(bm) { OK(capy_dc_cmd_EMC, dc); want.push_back({"EMC", {}, 0}); }
    OK(capy_dc_cmd_Q, dc);
    want.push_back({"Q", {}, 0});
    const pdf::Obj *o = nullptr;
    if(ctx == 0) d.add(dc);
    else {
        if(ctx == 1) { CapyPDF_FormXObjectId id; OK(capy_generator_add_form_xobject, d.g, dc, &id); }
        else if(ctx == 2) { CapyPDF_TransparencyGroupId id; OK(capy_generator_add_transparency_group, d.g, dc, &id); }
        else { CapyPDF_PatternId id; OK(capy_generator_add_tiling_pattern, d.g, dc, &id); }
        page = d.page();
        d.add(page);
    }
    d.finish();
    std::string cs;
    if(ctx == 0) cs = d.contents(d.pg(0));
    else {
        int num = -1;
        for(auto &e : d.out.x) if(ctx == 3 ? e.o.name_is("Type", "Pattern") : e.o.name_is("Subtype", "Form")) { C(num < 0, "one-object"); o = &e.o; num = d.out.objnum(o); }
        C(num > 0, "context-object");
        C(d.out.content(num, cs), "context-stream");
    }
    auto got = content::parse(cs);
    for(auto &x : want) if(x.kind == 9) x.kind = 4;
    // BMC operand: the tag
    C(got.size() == want.size(), "operator-count");
    for(size_t i = 0; i < got.size(); i++) if(want[i].kind == 4) { C(got[i].op == "BMC" && got[i].args[0].is("tag"), "tag"); want[i].kind = 5; }
    std::vector<content::Op> g2; std::vector<X> w2;
    for(size_t i = 0; i < got.size(); i++) if(want[i].kind != 5) { g2.push_back(got[i]); w2.push_back(want[i]); }
    want = w2;
    compare(g2);
    capysym_reach(rc == 0 ? "accepted" : "rejected");
}
#else
// Sequences of nesting operations: exactly the properly nested ones can be finished, and they are written as issued.
#ifndef LEN
#define LEN 4
#endif
extern "C" void harness(void) {
    D d;
    int ctx = capysym_choice("context", 2);
    d.open();
    auto og = ocg(d.g, "layer");
    auto si = sitem(d.g, CAPY_STRUCTURE_TYPE_DOCUMENT);
    auto s1 = sitem(d.g, CAPY_STRUCTURE_TYPE_P, &si), s2 = sitem(d.g, CAPY_STRUCTURE_TYPE_P, &si);
    if(ctx == 0) dc = d.page();
    else OK(capy_form_xobject_new, d.g, 0, 0, 20, 20, &dc);
    std::string stack;          // q, m
    std::vector<std::string> w;
    int used = 0;               // structure items used
    for(int i = 0; i < LEN; i++) {
        int k = capysym_choice("step", ctx == 0 ? 10 : 8);
        bool marked = stack.find('m') != std::string::npos;
        int rc; bool ok;
        switch(k) {
        case 0: rc = capy_dc_cmd_q(dc); ok = true; if(rc == 0) { w.push_back("q"); stack += 'q'; } break;
        case 1: rc = capy_dc_cmd_Q(dc); ok = !stack.empty() && stack.back() == 'q'; if(rc == 0) { w.push_back("Q"); if(stack.size()) stack.pop_back(); } break;
        case 2: rc = capy_dc_cmd_BMC(dc, "tag"); ok = !marked; if(rc == 0) { w.push_back("BMC"); stack += 'm'; } break;
        case 3: rc = capy_dc_cmd_EMC(dc); ok = !stack.empty() && stack.back() == 'm'; if(rc == 0) { w.push_back("EMC"); if(stack.size()) stack.pop_back(); } break;
        case 4: rc = capy_dc_cmd_BDC_ocg(dc, og); ok = !marked; if(rc == 0) { w.push_back("BDC"); stack += 'm'; } break;
        case 5: { CapyPDF_BDCTags *t; OK(capy_bdc_tags_new, &t); OK(capy_bdc_tags_add_tag, t, "k", -1, "v", -1); rc = capy_dc_cmd_BDC_testing(dc, "Span", -1, t); OK(capy_bdc_tags_destroy, t); ok = !marked; if(rc == 0) { w.push_back("BDC"); stack += 'm'; } break; }
        case 6: rc = capy_dc_cmd_re(dc, 1, 2, 3, 4); ok = true; if(rc == 0) w.push_back("re"); break;
        case 7: { CapyPDF_Text *t; OK(capy_dc_text_new, dc, &t); bool bad = capysym_choice("bad-text", 2); OK(capy_text_cmd_Tc, t, 1); if(bad) OK(capy_text_cmd_j, t, (CapyPDF_Line_Join)77); rc = capy_dc_render_text_obj(dc, t); OK(capy_text_destroy, t); ok = !bad; if(rc == 0) { w.push_back("BT"); w.push_back("Tc"); w.push_back("ET"); } break; }
        case 8: { auto id = used == 0 ? s1 : s2; rc = capy_dc_cmd_BDC_builtin(dc, id, nullptr); ok = !marked && used < 2; if(rc == 0) { w.push_back("BDC"); stack += 'm'; used++; } break; }
        case 9: { auto id = used == 0 ? s1 : s2; CapyPDF_Text *t; OK(capy_dc_text_new, dc, &t); OK(capy_text_cmd_BDC_builtin, t, id); OK(capy_text_cmd_Tc, t, 1); int close = capysym_choice("close", 3); bool extra = false; for(int q = 0; q < close; q++) if(capy_text_cmd_EMC(t)) extra = true;
            rc = capy_dc_render_text_obj(dc, t); OK(capy_text_destroy, t); ok = (close == 1 || (close == 2 && extra)) && !marked && used < 2; if(rc == 0) { w.push_back("BT"); w.push_back("BDC"); w.push_back("Tc"); w.push_back("EMC"); w.push_back("ET"); used++; } break; }
        }
        C((rc == 0) == ok, ok ? "accepted:nesting" : "rejected:nesting");
    }
    int rc;
    CapyPDF_FormXObjectId id;
    if(ctx == 0) rc = capy_generator_add_page(d.g, dc);
    else rc = capy_generator_add_form_xobject(d.g, dc, &id);
    C((rc == 0) == stack.empty(), stack.empty() ? "accepted:balanced-context" : "rejected:unbalanced-context");
    if(rc) { capysym_reach("unbalanced"); return; }
    if(ctx == 1) d.add(d.page());
    d.finish();
    std::string cs;
    if(ctx == 0) cs = d.contents(d.pg(0));
    else for(auto &e : d.out.x) if(e.o.name_is("Subtype", "Form")) C(d.out.content(d.out.objnum(&e.o), cs), "form-stream");
    auto got = content::parse(cs);
    C(got.size() == w.size(), "operator-count");
    for(size_t i = 0; i < w.size(); i++) C(got[i].op == w[i], "operator");
    capysym_reach("balanced");
}
#endif
