// C17: the stream of a mesh shading decodes to the vertices, patches, edge flags and colours the caller gave.
#include "features.hpp"
#include "content.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static O G(O o, const char *k) { return d->out.get(o, k); }
static const int NCH[3] = {3, 1, 4};
static const char *CSN[3] = {"DeviceRGB", "DeviceGray", "DeviceCMYK"};
static const double BOX[5][4] = {{0, 0, 256, 32}, {-16, 8, 48, 136}, {96, 50, -32, -14}, {5, 0, 5, 10}, {0, 7, 10, 7}};
static CapyPDF_Color *color(int cs, const std::vector<double> &v) { return cs == 1 ? gray(v[0]) : cs == 0 ? rgb(v[0], v[1], v[2]) : cmyk(v[0], v[1], v[2], v[3]); }
struct Elem { int flag; std::vector<double> xy, col; };
static std::vector<Elem> el;
// the symbolic coordinate lies at (v - 128) / 256 of the box, the symbolic component is v / 256: both reach outside the range
static uint64_t symk_v, symc_v;
static uint64_t clampi(int64_t v) { return v < 0 ? 0 : v > 256 ? 256 : v; }
static bool closei(uint64_t enc, uint64_t q, uint64_t max) { int64_t e = (int64_t)(enc * 256 - q * max); return (e <= 512) & (-e <= 512); }
static bool close(double a, double b, double tol) { double e = a - b; return (e <= tol) & (-e <= tol); }
static double clamp(double v, double a, double b) { double lo = a < b ? a : b, hi = a < b ? b : a; return v < lo ? lo : v > hi ? hi : v; }
extern "C" void harness(void) {
    D dd; d = &dd;
    d->open(); g = d->g;
    capysym_numtokens(1);
    int type = capysym_choice("type", 2) ? 6 : 4, mode = PART, cs = 0, box = 0, bad = 0, nsteps, step[4];
    int symel = -1, symk = 0, symc = -1, symcc = 0;
    CapyPDF_LabColorSpaceId lab{};
    CapyPDF_PatternId pat{};
    if(mode == 0) {                                            // sequences of strips and continuations
        nsteps = 1 + capysym_choice("steps", 3);
        for(int i = 0; i < nsteps; i++) step[i] = capysym_choice("step", 5);
    } else {
        cs = mode == 1 ? 1 : capysym_choice("colorspace", 3);
        nsteps = 3; step[0] = 0; step[1] = type == 4 ? 1 : 3; step[2] = 0;
        if(mode == 1) {
            static const int E4[4] = {0, 2, 3, 6};
            box = capysym_choice("box", 5);
            if(box < 3) { symel = type == 4 ? E4[capysym_choice("where", 4)] : capysym_choice("where", 3); symk = capysym_choice("coordinate", type == 4 ? 2 : 4); if(symk > 1) symk += symel == 1 ? 12 : 20; }
        }
        else if(mode == 2) { symc = capysym_choice("where", type == 4 ? 7 : 3); symcc = capysym_choice("component", NCH[cs] * (type == 4 ? 1 : symc == 1 ? 2 : 4)); }
        else { bad = 1 + capysym_choice("bad-kind", 5); symc = capysym_choice("where", type == 4 ? 7 : 3); symcc = capysym_choice("color", type == 4 ? 1 : symc == 1 ? 2 : 4) * NCH[cs];
            OK(capy_generator_add_lab_colorspace, g, 0.9, 1, 1.1, -100, 100, -100, 100, &lab);
            DC *t; OK(capy_tiling_pattern_context_new, g, &t, 0, 0, 10, 10); OK(capy_generator_add_tiling_pattern, g, t, &pat); }
    }
    const double *b = BOX[box];
    double w = b[2] - b[0], h = b[3] - b[1];
    CapyPDF_Shading *sh;
    if(type == 4) OK(capy_type4_shading_new, (CapyPDF_Device_Colorspace)cs, b[0], b[1], b[2], b[3], &sh); else OK(capy_type6_shading_new, (CapyPDF_Device_Colorspace)cs, b[0], b[1], b[2], b[3], &sh);
    int cnt = 0, kcol = 0;
    bool mismatch = false;
    for(int i = 0; i < nsteps; i++) {
        int32_t flag = step[i];
        if(flag == 4) { uint32_t f = capysym_sym("flag", 32); flag = (int32_t)f; capysym_assume(!(flag >= 1 && flag <= 3)); }
        int np = step[i] == 0 ? (type == 4 ? 3 : 12) : (type == 4 ? 1 : 8), nc = step[i] == 0 ? (type == 4 ? 3 : 4) : (type == 4 ? 1 : 2);
        std::vector<double> xy(2 * np);
        std::vector<std::vector<double>> cv(nc);
        std::vector<CapyPDF_Color *> cols(nc);
        int base = (int)el.size();
        for(int k = 0; k < 2 * np; k++) {
            int e = type == 4 ? base + k / 2 : base, kk = type == 4 ? k % 2 : k;
            int q = cnt++ % 11;
            xy[k] = (k & 1 ? b[1] + h * (q - 1) / 7.9 : b[0] + w * (q - 1) / 7.9);     // some lie outside the box, few are short binary fractions
            if(e == symel && kk == symk) { symk_v = capysym_sym("coordinate", 9); xy[k] = (k & 1 ? b[1] : b[0]) + ((double)(int64_t)symk_v - 128) * ((k & 1 ? h : w) / 256); }
        }
        for(int k = 0; k < nc; k++) {
            int e = type == 4 ? base + k : base;
            for(int c = 0; c < NCH[cs]; c++) {
                double v = (kcol++ % 17) / 15.9;
                if(!bad && e == symc && symcc == (type == 4 ? c : k * NCH[cs] + c)) { symc_v = capysym_sym("component", 9); v = (double)(int64_t)symc_v / 256; }
                cv[k].push_back(v);
            }
            cols[k] = color(cs, cv[k]);
            if(bad && e == symc && symcc == (type == 4 ? 0 : k * NCH[cs])) {
                int o = bad <= 3 ? bad - 1 : cs;
                if(bad <= 3) cols[k] = color(o, {0.5, 0.25, 0.5, 0.75}); else if(bad == 4) OK(capy_color_set_lab, cols[k], lab, 10, 10, 10); else OK(capy_color_set_pattern, cols[k], pat);
                if(bad > 3 || o != cs) mismatch = true; else { cv[k] = {0.5, 0.25, 0.5, 0.75}; cv[k].resize(NCH[cs]); }
            }
            for(auto &v : cv[k]) v = clamp01(v);
        }
        int rc;
        bool valid = step[i] == 0 || (!el.empty() && (step[i] == 1 || step[i] == 2 || (type == 6 && step[i] == 3)));
        const CapyPDF_Color **cp = (const CapyPDF_Color **)cols.data();
        if(step[i] == 0) rc = type == 4 ? capy_type4_shading_add_triangle(sh, xy.data(), cp) : capy_type6_shading_add_patch(sh, xy.data(), cp);
        else rc = type == 4 ? capy_type4_shading_extend(sh, flag, xy.data(), cols[0]) : capy_type6_shading_extend(sh, flag, xy.data(), cp);
        C((rc == 0) == valid, "verdict:mesh-element");
        // the other kind of shading takes no such element
        if(step[i] == 0) rc = type == 6 ? capy_type4_shading_add_triangle(sh, xy.data(), cp) : capy_type6_shading_add_patch(sh, xy.data(), cp);
        else rc = type == 6 ? capy_type4_shading_extend(sh, flag, xy.data(), cols[0]) : capy_type6_shading_extend(sh, flag, xy.data(), cp);
        C(rc != 0, "verdict:mesh-element-of-other-type");
        if(valid) {
            if(type == 4) for(int k = 0; k < np; k++) el.push_back({flag, {xy[2 * k], xy[2 * k + 1]}, cv[k]});
            else { std::vector<double> cc; for(auto &x : cv) cc.insert(cc.end(), x.begin(), x.end()); el.push_back({flag, xy, cc}); }
        }
        for(auto *c : cols) OK(capy_color_destroy, c);
        for(auto &x : xy) x = 0;
    }
    CapyPDF_ShadingId id;
    int rc = capy_generator_add_shading(g, sh, &id);
    bool ok = w != 0 && h != 0 && !mismatch;
    C((rc == 0) == ok, "verdict:mesh");
    OK(capy_shading_destroy, sh);
    DC *dc = d->page();
    if(rc == 0) OK(capy_dc_cmd_sh, dc, id); else C(capy_dc_cmd_sh(dc, CapyPDF_ShadingId{0}) != 0, "shading-of-failed-call");
    d->add(dc);
    d->finish();
    O r = G(d->pg(0), "Resources");
    if(rc) { C(!r || !G(r, "Shading"), "shading-of-failed-call"); for(auto &e : d->out.x) C(!e.o.get("ShadingType"), "shading-of-failed-call"); capysym_reach("refused"); return; }
    O s = G(r, "Shading"); C(s && s->a.size() == 1, "shading");
    O o = d->out.deref(&s->a[0]);
    C(content::is_num(*G(o, "ShadingType"), type) && o->name_is("ColorSpace", CSN[cs]) && content::is_num(*G(o, "BitsPerFlag"), 8), "mesh-parameters");
    O bc = G(o, "BitsPerCoordinate"), bp = G(o, "BitsPerComponent"), de = G(o, "Decode");
    C(bc && bp && (bc->i == 8 || bc->i == 16 || bc->i == 24 || bc->i == 32) && (bp->i == 8 || bp->i == 16), "mesh-bits");
    C(de && de->k == pdf::Array && (int)de->a.size() == 4 + 2 * NCH[cs], "mesh-decode");
    // the declared ranges: coordinates use the box, components 0 to 1
    C(content::is_num(de->a[0], b[0]) && content::is_num(de->a[1], b[2]) && content::is_num(de->a[2], b[1]) && content::is_num(de->a[3], b[3]), "mesh-decode");
    for(int c = 0; c < NCH[cs]; c++) C(content::is_num(de->a[4 + 2 * c], 0) && content::is_num(de->a[5 + 2 * c], 1), "mesh-decode");
    std::string data = d->stream(&s->a[0], "mesh-stream");
    size_t pos = 0;
    auto take = [&](int bits) { uint64_t v = 0; C(pos + bits / 8 <= data.size(), "mesh-stream-short"); for(int i = 0; i < bits / 8; i++) v = v << 8 | (unsigned char)data[pos++]; return v; };
    const double cmax = (double)((1ull << bc->i) - 1), pmax = (double)((1ull << bp->i) - 1);
    for(auto &e : el) {
        C((int)take(8) == e.flag, "mesh-flag");
        for(size_t k = 0; k < e.xy.size(); k++) {
            int ax = k & 1;
            if((int)(&e - el.data()) == symel && (int)k == symk) { C(closei(take(bc->i), clampi((int64_t)symk_v - 128), (1ull << bc->i) - 1), "mesh-coordinate"); continue; }
            double lo = b[ax], hi = b[ax + 2], v = lo + (double)take(bc->i) * (hi - lo) / cmax, rng = hi > lo ? hi - lo : lo - hi;
            C(close(v, clamp(e.xy[k], lo, hi), rng * 2 / cmax), "mesh-coordinate");
        }
        for(size_t k = 0; k < e.col.size(); k++) if(!bad && (int)(&e - el.data()) == symc && (int)k == symcc) C(closei(take(bp->i), clampi(symc_v), (1ull << bp->i) - 1), "mesh-color"); else C(close((double)take(bp->i) / pmax, e.col[k], 2 / pmax), "mesh-color");
    }
    C(pos == data.size(), "mesh-stream-long");
    capysym_reach("decoded");
}
