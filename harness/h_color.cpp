// C16: images are converted between colour spaces with the right profiles and intent; ICC profiles are stored exactly.
#include "imgmodels.hpp"
#include "content.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool num(O o, double v) { return o && content::is_num(*o, v); }
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static const char *CSN[3] = {"DeviceRGB", "DeviceGray", "DeviceCMYK"};
static const CapyPDF_Image_Colorspace CS[3] = {CAPY_IMAGE_CS_RGB, CAPY_IMAGE_CS_GRAY, CAPY_IMAGE_CS_CMYK};
static const CapyPDF_Device_Colorspace DS[3] = {CAPY_DEVICE_CS_RGB, CAPY_DEVICE_CS_GRAY, CAPY_DEVICE_CS_CMYK};
static const int NCH[3] = {3, 1, 4};
// ---- colour management: every pair of profiles, formats and intent gives its own mixture of the input channels
static uint32_t ident(cmsHPROFILE h) {
    cmsUInt32Number n = 0;
    if(!cmsSaveProfileToMem(h, nullptr, &n)) return 1;
    std::string s(n, 0);
    cmsSaveProfileToMem(h, s.data(), &n);
    uint32_t k = 2166136261u;
    for(size_t i = 0; i < s.size(); i++) if(!(i >= 24 && i < 36) && !(i >= 84 && i < 100)) k = (k ^ (unsigned char)s[i]) * 16777619u;
    return k;
}
struct Tr { uint32_t a, b; int nin, nout; unsigned intent; };
static void mix(const Tr &t, const unsigned char *in, unsigned char *out, size_t n) {
    for(size_t p = 0; p < n; p++) for(int o = 0; o < t.nout; o++) {
        if(t.a == t.b) { out[p * t.nout + o] = in[p * t.nin + o]; continue; }
        unsigned v = (t.a >> o * 3 & 63) + (t.b >> o * 2 & 127) + t.intent * 29;
        for(int i = 0; i < t.nin; i++) v += in[p * t.nin + i] * (((t.a >> (i + o) & 7) + (t.b >> (5 + i) & 3)) * 2 + 1);
        out[p * t.nout + o] = (unsigned char)v;
    }
}
static int channels(cmsHPROFILE h) { return (int)cmsChannelsOf(cmsGetColorSpace(h)); }
static int live_tr;
MODEL cmsHTRANSFORM model_cmsCreateTransform(cmsHPROFILE in, cmsUInt32Number fi, cmsHPROFILE out, cmsUInt32Number fo, cmsUInt32Number intent, cmsUInt32Number) {
    auto nch = [](cmsUInt32Number f) { return f == TYPE_RGB_8 ? 3 : f == TYPE_GRAY_8 ? 1 : f == TYPE_CMYK_8 ? 4 : 0; };
    if(!in || !out) { bad_use++; return nullptr; }
    if(!nch(fi) || !nch(fo) || nch(fi) != channels(in) || nch(fo) != channels(out) || intent > 3) return nullptr;
    live_tr++;
    return new Tr{ident(in), ident(out), nch(fi), nch(fo), intent};
}
MODEL void model_cmsDoTransform(cmsHTRANSFORM t, const void *in, void *out, cmsUInt32Number n) { mix(*(Tr *)t, (const unsigned char *)in, (unsigned char *)out, n); }
MODEL void model_cmsDeleteTransform(cmsHTRANSFORM t) { if(t) { delete(Tr *)t; live_tr--; } else bad_use++; }
static uint32_t ident_of(const std::string &s) { cmsHPROFILE h = cmsOpenProfileFromMem(s.data(), s.size()); uint32_t k = ident(h); cmsCloseProfile(h); return k; }
static std::string device(int cs) { static std::string p[3] = {icc_rgb2(), icc_gray(1.8), icc_cmyk_out()}; return p[cs]; }
static std::string embedded(int cs) { static std::string p[3] = {icc_rgb2(1.8), icc_gray(2.0), icc_cmyk(250)}; return p[cs]; }
static std::string builtin(int cs) { static std::string p[2] = {icc_rgb(), icc_gray(1.0)}; return p[cs]; }
static const char *PATH[3] = {"/m/rgb.icc", "/m/gray.icc", "/m/cmyk.icc"};
static void set_device(int cs) { env::put(PATH[cs], device(cs)); OK(capy_document_properties_set_device_profile, d->dp, DS[cs], PATH[cs]); }
static O image(int page) {
    O x = G(G(d->pg(page), "Resources"), "XObject");
    C(x && x->k == pdf::Dict && x->a.size() == 1 && x->a[0].k == pdf::Ref, "image-resource");
    return &x->a[0];
}
static void show(CapyPDF_RasterImage *r) { CapyPDF_ImageId id = addimage(g, r); OK(capy_raster_image_destroy, r); DC *dc = d->page(); OK(capy_dc_cmd_Do_image, dc, id); d->add(dc); }
static void check_profile(O c, int cs, const std::string &icc) {
    C(c && c->k == pdf::Array && c->a.size() == 2 && c->a[0].is("ICCBased") && c->a[1].k == pdf::Ref, "profile-object");
    C(num(G(d->out.deref(&c->a[1]), "N"), NCH[cs]), "profile-channels");
    C(same(d->stream(&c->a[1], "profile-data"), icc), "profile-data");
}
static void check(int page, uint32_t w, uint32_t h, int cs, const std::string &px, const std::string &al, int adepth, const std::string &icc) {
    O ref = image(page), im = d->out.deref(ref);
    C(num(G(im, "Width"), w) && num(G(im, "Height"), h) && num(G(im, "BitsPerComponent"), 8), "image-size");
    if(icc.empty()) C(im->name_is("ColorSpace", CSN[cs]), "image-colorspace"); else check_profile(G(im, "ColorSpace"), cs, icc);
    C(same(d->stream(ref, "image-pixels"), px), "image-pixels");
    C(im->has("SMask") == !al.empty(), "image-alpha");
    if(!al.empty()) {
        O sr = im->get("SMask"), s = d->out.deref(sr);
        C(num(G(s, "BitsPerComponent"), adepth) && s->name_is("ColorSpace", "DeviceGray"), "image-alpha");
        C(same(d->stream(sr, "image-alpha"), al), "image-alpha");
    }
}
#if PART == 0
static void body() {
    int docs = capysym_choice("profiles", 4), src = capysym_choice("source", 3), dst = capysym_choice("target", 3), emb = capysym_choice("embedded", 4), intent = capysym_choice("intent", 4);
    if(emb >= 2 && intent) return;
    // 0: none, 1: all, 2: rgb and gray, 3: cmyk
    bool dev[3] = {docs == 1 || docs == 2, docs == 1 || docs == 2, docs == 1 || docs == 3};
    for(int i = 0; i < 3; i++) if(dev[i]) set_device(i);
    // cmyk without a profile as the document's own colour space cannot be used; leave it at the default
    d->open(); g = d->g;
    uint32_t w = intent == 1 ? 1 : 2, h = intent == 2 ? 3 : 1;
    std::string px, al;
    symbytes(px, w * h * NCH[src], "px");
    int adepth = emb >= 2 ? 0 : (intent + dst + docs) % 3 == 0 ? 0 : 8;
    if(adepth) symbytes(al, w * h, "alpha");
    CapyPDF_RasterImage *r, *r2 = nullptr;
    std::string icc;
    bool first1 = adepth && emb == 0 && (intent + dst) % 2;
    if(first1) { adepth = 1; al.resize(h); }
    if(emb == 0) r = raster(w, h, 8, CS[src], px, adepth, al);
    else {
        // an image file with a profile: its own, one with other channels, or garbage
        icc = emb == 1 ? embedded(src) : emb == 2 ? embedded((src + 1) % 3) : "not a profile";
        pics.resize(2);
        Pic &p = pics[1];
        p.w = w; p.h = h; p.photometric = src == 0 ? 2 : src == 1 ? 1 : 5; p.spp = NCH[src] + (adepth != 0); p.icc = icc;
        for(uint32_t y = 0; y < h; y++) { std::string row; for(uint32_t x = 0; x < w; x++) { row += px.substr((y * w + x) * NCH[src], NCH[src]); if(adepth) row += al[y * w + x]; } p.rows.push_back(row); }
        env::put("/m/a.tif", imgfile(FTIF, 1));
        OK(capy_generator_load_image, g, "/m/a.tif", &r);
    }
    static const CapyPDF_Rendering_Intent RI[4] = {CAPY_RI_RELATIVE_COLORIMETRIC, CAPY_RI_ABSOLUTE_COLORIMETRIC, CAPY_RI_SATURATION, CAPY_RI_PERCEPTUAL};
    static const unsigned LI[4] = {INTENT_RELATIVE_COLORIMETRIC, INTENT_ABSOLUTE_COLORIMETRIC, INTENT_SATURATION, INTENT_PERCEPTUAL};
    int rc = capy_generator_convert_image(g, r, DS[dst], RI[intent], &r2);
    C(live_tr == 0 && bad_use == 0, "library-objects-released");
    bool ok = emb < 2 && (emb == 1 || src != 2 || dev[2]) && (dst != 2 || dev[2]);
    C((rc == 0) == ok, "verdict:convert");
    // the source is left as it was
    uint32_t x, y; CapyPDF_Image_Colorspace cs; int pr;
    OK(capy_raster_image_get_size, r, &x, &y); C(x == w && y == h, "source-changed");
    OK(capy_raster_image_get_colorspace, r, &cs); C(cs == CS[src], "source-changed");
    OK(capy_raster_image_has_profile, r, &pr); C(pr == (emb != 0), "source-changed");
    std::string out;
    if(ok) {
        OK(capy_raster_image_get_size, r2, &x, &y); C(x == w && y == h, "get-size");
        OK(capy_raster_image_get_colorspace, r2, &cs); C(cs == CS[dst], "get-colorspace");
        OK(capy_raster_image_has_profile, r2, &pr); C(pr == 0, "has-profile");
        Tr t{ident_of(emb == 1 ? icc : dev[src] ? device(src) : builtin(src)), ident_of(dev[dst] ? device(dst) : builtin(dst)), NCH[src], NCH[dst], LI[intent]};
        out.resize(w * h * NCH[dst]);
        mix(t, (const unsigned char *)px.data(), (unsigned char *)out.data(), w * h);
        show(r2);
    }
    if(emb < 2) show(r);
    d->out.opaque_filters = true;
    if(!ok && emb >= 2) d->add(d->page());
    d->finish();
    int n = 0;
    if(ok) check(n++, w, h, dst, out, al, adepth, "");
    if(emb < 2) check(n, w, h, src, px, al, adepth, icc);
    capysym_reach(ok ? "converted" : "refused");
}
#elif PART == 1
// images that cannot be converted
static void body() {
    set_device(2);
    d->open(); g = d->g;
    int k = capysym_choice("what", 8), src = capysym_choice("source", 3), dst = capysym_choice("target", 3);
    CapyPDF_RasterImage *r, *r2 = nullptr;
    std::string px; uint32_t w = 2, h = 1, depth = 8;
    size_t n = 2 * NCH[src];
    if(k == 0) { w = capysym_choice("zero", 2) ? 0 : 2; h = w ? 0 : 1; }
    if(k == 1) n--;
    if(k == 2) n = capysym_choice("empty", 2) ? 0 : n + 1;
    if(k == 3) { depth = (uint32_t)capysym_sym("depth", 32); capysym_assume(depth != 8); }
    if(k == 4) { w = (uint32_t)capysym_sym("w", 32); capysym_assume(w != 2 && w != 0); }
    if(k == 5) { h = (uint32_t)capysym_sym("h", 32); capysym_assume(h != 1 && h != 0); }
    symbytes(px, n, "px");
    if(k == 7) {
        pics.resize(2); pics[1].jcs = JCS_RGB; pics[1].w = 2;
        env::put("/m/a.jpg", imgfile(FJPG, 1));
        OK(capy_generator_load_image, g, "/m/a.jpg", &r);
    } else r = raster(w, h, depth, CS[src], px, 0, "", k == 6 ? CAPY_COMPRESSION_DEFLATE : CAPY_COMPRESSION_NONE);
    C(capy_generator_convert_image(g, r, DS[dst], CAPY_RI_PERCEPTUAL, &r2) != 0, "verdict:convert");
    C(live_tr == 0 && bad_use == 0, "library-objects-released");
    OK(capy_raster_image_destroy, r);
    d->add(d->page());
    d->finish();
    capysym_reach("refused");
}
#elif PART == 2
// profiles added to the document
static void body() {
    int dup = capysym_choice("device", 2);
    if(dup) set_device(0);
    d->open(); g = d->g;
    int seq[3], n = 0, rcs[3]; CapyPDF_IccColorSpaceId id[3];
    int first = capysym_choice("first", 6);
    for(int i = 0; i < 3; i++) {
        int k = seq[n] = i == 0 ? first : capysym_choice("profile", 6);      // 0-2 device profiles, 3 another gray, 4 garbage, 5 empty or missing
        std::string p = k < 3 ? device(k) : k == 3 ? embedded(1) : k == 4 ? "garbage" : "";
        int cs = k < 3 ? k : 1, how = (i + first) % 2;
        int chn = k == 4 || k == 5 ? 3 : NCH[cs];
        bool wrong = i == 1 && how == 0 && (first & 2);
        if(how == 0) {
            if(wrong) chn = (int)capysym_range("channels", 0, 5);
            std::vector<char> buf(p.begin(), p.end()); buf.push_back(0);
            rcs[n] = capy_generator_add_icc_profile(g, buf.data(), p.size(), chn, &id[n]);
        } else {
            if(k != 5) env::put("/m/x.icc", p);
            else if(first % 3 == 0) env::put("/m/x.icc", "");
            rcs[n] = capy_generator_load_icc_profile(g, k == 5 && first % 3 ? "/m/none.icc" : "/m/x.icc", &id[n]);
        }
        C((rcs[n] == 0) == (k < 4 && chn == NCH[cs]), "verdict:icc-profile");
        n++;
    }
    static const double V[4] = {0.25, 0.5, 0.75, 1};
    // every accepted profile is usable as a colour space
    for(int i = 0; i < n; i++) if(!rcs[i]) {
        int cs = seq[i] < 3 ? seq[i] : 1;
        CapyPDF_Color *c; DC *dc = d->page();
        OK(capy_color_new, &c);
        if(i == 2 && NCH[cs] > 1) {
            OK(capy_color_set_icc, c, id[i], (double *)V, NCH[cs] - 1);
            C(capy_dc_set_nonstroke(dc, c) != 0, "verdict:icc-color");
        }
        OK(capy_color_set_icc, c, id[i], (double *)V, NCH[cs]);
        OK(capy_dc_set_nonstroke, dc, c);
        OK(capy_color_destroy, c);
        d->add(dc);
    }
    d->add(d->page());
    d->finish();
    int pg = 0;
    for(int i = 0; i < n; i++) if(!rcs[i]) {
        int cs = seq[i] < 3 ? seq[i] : 1;
        O page = d->pg(pg++), r = G(G(page, "Resources"), "ColorSpace");
        C(r && r->a.size() == 1, "profile-resource");
        check_profile(d->out.deref(&r->a[0]), cs, seq[i] < 3 ? device(seq[i]) : embedded(1));
    }
    capysym_reach("done");
}
#else
// device profiles given when the document is made
static void body() {
    int slot = capysym_choice("slot", 3), k = capysym_choice("profile", 6), out = capysym_choice("output", 3);
    if(k != 5) env::put("/m/p.icc", k < 3 ? device(k) : k == 3 ? "garbage" : "");
    OK(capy_document_properties_set_device_profile, d->dp, DS[slot], "/m/p.icc");
    OK(capy_document_properties_set_colorspace, d->dp, DS[out]);
    int rc = capy_generator_new(d->fname.c_str(), d->dp, &d->g);
    bool ok = k == slot && (out != 2 || slot == 2);
    C((rc == 0) == ok, "verdict:device-profile");
    capysym_reach(ok ? "done" : "refused");
}
#endif
extern "C" void harness() {
    D dd; d = &dd;
    body();
}
