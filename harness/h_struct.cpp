// C18: the structure tree, the marked content on the pages and the parent tree agree.
#include "features.hpp"
#include "content.hpp"
typedef const pdf::Obj *O;
static D *d;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool ref_is(O o, O target) { return o && o->k == pdf::Ref && target && d->out.deref(o) == target; }
#ifndef NITEM
#define NITEM 3
#endif
static const CapyPDF_Structure_Type ST[] = {CAPY_STRUCTURE_TYPE_DOCUMENT, CAPY_STRUCTURE_TYPE_SECT, CAPY_STRUCTURE_TYPE_P, CAPY_STRUCTURE_TYPE_H1, CAPY_STRUCTURE_TYPE_DIV};
static const char *SN[] = {"Document", "Sect", "P", "H1", "Div"};
extern "C" void harness(void) {
    D dd; d = &dd;
    d->debug();
    d->open();
    Gen *g = d->g;
    int n = 1 + capysym_choice("items", NITEM), custom = capysym_choice("custom-role", 2);
    std::vector<int> parent(n, -1), use(n, -1), via(n, 0);
    std::vector<CapyPDF_StructureItemId> id(n);
    CapyPDF_RoleId role{};
    if(custom) OK(capy_generator_add_rolemap_entry, g, "my role", -1, CAPY_STRUCTURE_TYPE_SPAN, &role);
    std::vector<std::string> name(n);
    for(int i = 0; i < n; i++) {
        parent[i] = i ? (int)capysym_choice("parent", i + 1) - 1 : -1;
        CapyPDF_StructureItemId bad{n}, *pp = parent[i] >= 0 ? &id[parent[i]] : nullptr, x;
        C(capy_generator_add_structure_item(g, ST[0], &bad, nullptr, &x) != 0, "bad-parent-accepted");
        if(custom && i == n - 1) { OK(capy_generator_add_custom_structure_item, g, role, pp, nullptr, &id[i]); name[i] = "my role"; }
        else { OK(capy_generator_add_structure_item, g, ST[i], pp, nullptr, &id[i]); name[i] = SN[i]; }
    }
    DC *pg[3], *fx;
    OK(capy_form_xobject_new, g, 0, 0, 5, 5, &fx);
    for(auto &p : pg) p = d->page();
    int mode = capysym_choice("mode", 5), failed = mode == 4 ? 0 : mode, reverse = mode == 4;
    std::vector<int> seq[3];
    for(int k = 0; k < n; k++) {
        int i = reverse ? n - 1 - k : k;
        use[i] = (int)capysym_choice("use", 4) - 1;            // -1 unused, 2: a page that is never added
        if(use[i] < 0) continue;
        DC *p = pg[use[i]];
        C(capy_dc_cmd_BDC_builtin(fx, id[i], nullptr) != 0, "structure-in-form-xobject-lost");
        if(failed == 1) {                                       // refused: nested marked content
            OK(capy_dc_cmd_BMC, p, "Art");
            C(capy_dc_cmd_BDC_builtin(p, id[i], nullptr) != 0, "nested-marked-content");
            OK(capy_dc_cmd_EMC, p);
        } else if(failed == 2) {                                // refused: a text object that fails after marking content
            CapyPDF_Text *t; OK(capy_dc_text_new, p, &t);
            OK(capy_text_cmd_BDC_builtin, t, id[i]); OK(capy_text_cmd_EMC, t);
            int rc = capy_text_cmd_gs(t, CapyPDF_GraphicsStateId{77});
            if(rc == 0) rc = capy_dc_render_text_obj(p, t);
            C(rc != 0, "bad-text-accepted");
            OK(capy_text_destroy, t);
        }
        via[i] = (i + k) & 1;
        if(via[i]) { CapyPDF_Text *t; OK(capy_dc_text_new, p, &t); OK(capy_text_cmd_BDC_builtin, t, id[i]); OK(capy_text_cmd_EMC, t); OK(capy_dc_render_text_obj, p, t); OK(capy_text_destroy, t); }
        else { OK(capy_dc_cmd_BDC_builtin, p, id[i], nullptr); OK(capy_dc_cmd_EMC, p); }
        seq[use[i]].push_back(i);
        C(capy_dc_cmd_BDC_builtin(p, id[i], nullptr) != 0, "structure-item-twice-on-a-page");
    }
    d->add(pg[0]);
    if(failed == 3 && !seq[0].empty()) {                        // a page that repeats an item of the first one is refused whole
        DC *bad = d->page();
        OK(capy_dc_cmd_BDC_builtin, bad, id[seq[0][0]], nullptr); OK(capy_dc_cmd_EMC, bad);
        C(capy_generator_add_page(g, bad) != 0, "structure-item-on-two-pages");
        OK(capy_dc_destroy, bad);
    }
    d->add(pg[1]);
    OK(capy_dc_destroy, pg[2]);
    for(int i = 0; i < n; i++) if(use[i] == 2) use[i] = -1;
    d->finish();
    C(d->out.pages().size() == 2, "page-count");
    O root = G(d->out.catalog(), "StructTreeRoot");
    C(root && root->name_is("Type", "StructTreeRoot"), "structure-root");
    std::vector<O> el(n);
    size_t count = 0;
    for(auto &e : d->out.x) if(e.o.name_is("Type", "StructElem")) { count++; for(int i = 0; i < n; i++) if(e.o.name_is("S", name[i].c_str())) { C(!el[i], "one-element-per-item"); el[i] = &e.o; } }
    C(count == (size_t)n, "one-element-per-item");
    O rm = G(root, "RoleMap");
    C(custom ? rm && rm->keys.size() == 1 && rm->name_is("my role", "Span") : !rm, "role-map");
    for(int p = -1; p < n; p++) {
        std::vector<O> kids;
        for(int i = 0; i < n; i++) if(parent[i] == p) kids.push_back(el[i]);
        O o = p < 0 ? root : el[p], k = o->get("K");
        k = k && k->k == pdf::Ref && d->out.deref(k)->k == pdf::Array ? d->out.deref(k) : k;
        // elements of K
        std::vector<O> got;
        int mcid = -1, nmc = 0;
        auto one = [&](O x) { if(x->k == pdf::Int) { mcid = (int)x->i; nmc++; } else { C(x->k == pdf::Ref, "structure-K"); got.push_back(d->out.deref(x)); } };
        if(k) { if(k->k == pdf::Array) for(auto &x : k->a) one(&x); else one(k); }
        C(got.size() == kids.size(), "structure-children");
        for(size_t i = 0; i < kids.size(); i++) { C(got[i] == kids[i], "structure-children"); C(ref_is(kids[i]->get("P"), o), "structure-parent"); }
        if(p < 0) { C(nmc == 0, "structure-K"); continue; }
        C(nmc == (use[p] >= 0), "structure-content");
        if(use[p] >= 0) {
            C(ref_is(o->get("Pg"), d->pg(use[p])), "structure-page");
            C(mcid >= 0 && mcid < (int)seq[use[p]].size() && seq[use[p]][mcid] == p, "structure-mcid");
        }
    }
    O nums = G(G(root, "ParentTree"), "Nums"), next = G(root, "ParentTreeNextKey");
    C(nums && nums->k == pdf::Array && nums->a.size() % 2 == 0, "parent-tree");
    size_t used = 0;
    for(int p = 0; p < 2; p++) {
        O sp = G(d->pg(p), "StructParents");
        auto ops = content::parse(d->contents(d->pg(p)));
        std::vector<std::pair<int, std::string>> marks;
        for(auto &o : ops) if(o.op == "BDC") { O m = o.args[1].get("MCID"); C(m && m->k == pdf::Int, "content-mcid"); marks.push_back({(int)m->i, o.args[0].s}); }
        C(marks.size() == seq[p].size(), "content-marks");
        for(size_t i = 0; i < marks.size(); i++) { C(marks[i].first == (int)i, "content-mcid"); C(marks[i].second == name[seq[p][i]], "content-tag"); }
        if(seq[p].empty()) { C(!sp, "page-without-structure"); continue; }
        C(sp && sp->k == pdf::Int, "page-StructParents");
        O arr = nullptr;
        for(size_t i = 0; i < nums->a.size(); i += 2) if(nums->a[i].k == pdf::Int && nums->a[i].i == sp->i) { C(!arr, "parent-tree-key-twice"); arr = d->out.deref(&nums->a[i + 1]); }
        C(arr && arr->k == pdf::Array && arr->a.size() == seq[p].size(), "parent-tree-entry");
        for(size_t i = 0; i < seq[p].size(); i++) C(ref_is(&arr->a[i], el[seq[p][i]]), "parent-tree-item");
        C(next && next->k == pdf::Int && next->i > sp->i, "parent-tree-next-key");
        used++;
    }
    C(nums->a.size() == 2 * used, "parent-tree-size");
    for(size_t i = 2; i < nums->a.size(); i += 2) C(nums->a[i - 2].i < nums->a[i].i, "parent-tree-order");
    capysym_reach("done");
}
