// C14: raster images appear in the file with exactly the size, samples and transparency given.
#include "features.hpp"
#include "content.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool num(O o, double v) { return o && content::is_num(*o, v); }
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static const CapyPDF_Image_Colorspace CS[3] = {CAPY_IMAGE_CS_RGB, CAPY_IMAGE_CS_GRAY, CAPY_IMAGE_CS_CMYK};
static const char *CSN[3] = {"DeviceRGB", "DeviceGray", "DeviceCMYK"};
static const int NCH[3] = {3, 1, 4};
static size_t bytes(uint32_t w, uint32_t h, int ch, int depth) { return ((size_t)w * ch * depth + 7) / 8 * h; }
static std::string stored(const std::string &s) {
    std::string z("\x78\x01\x01", 3);
    unsigned n = s.size();
    char h[4] = {(char)(n & 255), (char)(n >> 8), (char)(~n & 255), (char)(~n >> 8 & 255)};
    z.append(h, 4); z += s;
    unsigned a = 1, b = 0;
    for(unsigned char c : s) { a = (a + c) % 65521; b = (b + a) % 65521; }
    char t[4] = {(char)(b >> 8), (char)b, (char)(a >> 8), (char)a};
    return z.append(t, 4);
}
// the image XObject drawn by page n (the only one among its resources)
static O xobject(int n) {
    O x = G(G(d->pg(n), "Resources"), "XObject");
    C(x && x->k == pdf::Dict && x->a.size() == 1 && x->a[0].k == pdf::Ref, "image-resource");
    return &x->a[0];
}
struct Im { uint32_t w, h; int cs, depth, adepth = 0, mask = 0, interp = 0; std::string px, alpha, raw; };
static void check_dict(O im, const Im &m, int depth, const char *cs, bool smask) {
    C(im && im->name_is("Type", "XObject") && im->name_is("Subtype", "Image"), "image-type");
    C(num(G(im, "Width"), m.w) && num(G(im, "Height"), m.h), "image-size");
    C(num(G(im, "BitsPerComponent"), depth), "image-depth");
    C(!im->has("Decode"), "image-decode");
    if(cs) { C(im->name_is("ColorSpace", cs), "image-colorspace"); C(!im->has("ImageMask"), "image-mask"); }
    else { O k = G(im, "ImageMask"); C(k && k->k == pdf::Bool && k->i == 1, "image-mask"); C(!im->has("ColorSpace"), "image-colorspace"); }
    C(im->has("SMask") == smask && !im->has("Mask") && !im->has("SMaskInData"), "image-softmask");
    O ip = G(im, "Interpolate");
    C(m.interp == 0 ? !ip : ip && ip->k == pdf::Bool && ip->i == (m.interp == 1 ? 0 : 1), "image-interpolate");
}
static void check_image(O ref, const Im &m) {
    O im = d->out.deref(ref);
    check_dict(im, m, m.depth, m.mask ? nullptr : CSN[m.cs], m.adepth != 0);
    C(same(d->stream(ref, "image-samples"), m.px), "image-samples");
    if(!m.raw.empty()) C(same(std::string(d->out.x[ref->i].data), m.raw), "image-compressed-data");
    if(m.adepth) {
        O sr = im->get("SMask");
        C(sr->k == pdf::Ref, "image-softmask");
        O s = d->out.deref(sr);
        Im a = m;
        C(s && num(G(s, "Width"), m.w) && num(G(s, "Height"), m.h) && s->name_is("Subtype", "Image"), "softmask-size");
        C(s->name_is("ColorSpace", "DeviceGray") && num(G(s, "BitsPerComponent"), m.adepth), "softmask-format");
        C(!s->has("SMask") && !s->has("Mask") && !s->has("ImageMask") && !s->has("Decode"), "softmask-format");
        C(same(d->stream(sr, "softmask-samples"), m.alpha), "softmask-samples");
    }
}
static CapyPDF_RasterImage *build(CapyPDF_RasterImageBuilder *b, const Im &m, const std::string &px, const std::string &al, bool deflate = false) {
    if(!al.empty()) OK(capy_raster_image_builder_set_alpha_data, b, al.data(), al.size());
    if(m.adepth) OK(capy_raster_image_builder_set_alpha_depth, b, m.adepth);
    OK(capy_raster_image_builder_set_colorspace, b, CS[m.cs]);
    if(!px.empty()) OK(capy_raster_image_builder_set_pixel_data, b, px.data(), px.size());
    OK(capy_raster_image_builder_set_size, b, m.w, m.h);
    if(m.depth != 8) OK(capy_raster_image_builder_set_pixel_depth, b, m.depth);      // 8 is the default
    if(deflate) OK(capy_raster_image_builder_set_input_data_compression_format, b, CAPY_COMPRESSION_DEFLATE);
    CapyPDF_RasterImage *r;
    OK(capy_raster_image_builder_build, b, &r);
    return r;
}
static int add(CapyPDF_RasterImage *r, const Im &m, CapyPDF_ImageId *id) {
    CapyPDF_ImagePdfProperties *p;
    OK(capy_image_pdf_properties_new, &p);
    if(m.mask) OK(capy_image_pdf_properties_set_mask, p, 1);
    if(m.interp) OK(capy_image_pdf_properties_set_interpolate, p, (CapyPDF_Image_Interpolation)m.interp);
    int rc = capy_generator_add_image(g, r, p, id);
    OK(capy_image_pdf_properties_destroy, p);
    return rc;
}
static void show(CapyPDF_ImageId id) { DC *dc = d->page(); OK(capy_dc_cmd_Do_image, dc, id); d->add(dc); }
enum { PLAIN, PIXELATED, SMOOTH, DEFL, DEFL_ALPHA, MASK, SHORT, LONG, NOPIXELS, ASHORT, ALONG, NV };
static void samples() {
    static const uint32_t W[4] = {1, 3, 9, 2}, H[4] = {1, 2, 1, 3};
    static const int DEP[5] = {8, 1, 2, 4, 16};
    d->open(); g = d->g;
    int v = capysym_choice("variant", NV), sz = capysym_choice("size", v == PLAIN ? 4 : 2);
    Im m;
    m.w = W[sz + (v != PLAIN)]; m.h = H[sz + (v != PLAIN)];
    m.cs = capysym_choice("colorspace", 3);
    m.depth = DEP[capysym_choice("depth", 5)];
    bool needs = v == ASHORT || v == ALONG || v == DEFL_ALPHA;
    int al = v == DEFL ? 0 : capysym_choice("alpha", needs ? 2 : 3);
    if(needs) al++;
    m.adepth = al == 0 ? 0 : al == 1 ? m.depth : m.depth == 8 ? 1 : 8;
    m.interp = v == PIXELATED ? CAPY_INTERPOLATION_PIXELATED : v == SMOOTH ? CAPY_INTERPOLATION_SMOOTH : CAPY_INTERPOLATION_AUTO;
    m.mask = v == MASK;
    bool defl = v == DEFL || v == DEFL_ALPHA;
    size_t np = bytes(m.w, m.h, NCH[m.cs], m.depth), na = m.adepth ? bytes(m.w, m.h, 1, m.adepth) : 0;
    std::string px, alpha;
    if(defl) {
        for(size_t i = 0; i < np; i++) m.px += (char)(i * 37 + 5);
        for(size_t i = 0; i < na; i++) m.alpha += (char)(i * 11 + 200);
        px = m.raw = stored(m.px);
        if(na) alpha = stored(m.alpha);
    } else {
        symbytes(m.px, v == SHORT ? np - 1 : v == LONG ? np + 1 : v == NOPIXELS ? 0 : np, "px");
        if(na) symbytes(m.alpha, v == ASHORT ? na - 1 : v == ALONG ? na + 1 : na, "alpha");
        px = m.px; alpha = m.alpha;
    }
    if(v == ASHORT && na == 1) return;                  // no alpha data at all
    // neighbours with other contents
    Im first, last;
    first.w = 2; first.h = 1; first.cs = 0; first.depth = 8; first.px = "abcdef";
    last.w = 1; last.h = 2; last.cs = 1; last.depth = 8; last.px = "yz"; last.adepth = 8; last.alpha = "AZ";
    CapyPDF_RasterImageBuilder *b;
    CapyPDF_ImageId i0, id, i2, again;
    OK(capy_raster_image_builder_new, &b);
    CapyPDF_RasterImage *r0 = build(b, first, first.px, ""), *r = build(b, m, px, alpha, defl), *r2 = build(b, last, last.px, last.alpha);
    OK(capy_raster_image_builder_destroy, b);
    for(auto &c : px) c = 1;
    for(auto &c : alpha) c = 1;
    uint32_t w, h; CapyPDF_Image_Colorspace cs; int prof = 7;
    OK(capy_raster_image_get_size, r, &w, &h); C(w == m.w && h == m.h, "get-size");
    OK(capy_raster_image_get_colorspace, r, &cs); C(cs == CS[m.cs], "get-colorspace");
    OK(capy_raster_image_has_profile, r, &prof); C(prof == 0, "has-profile");
    C(add(r0, first, &i0) == 0, "accepted:image");
    bool ok = v != SHORT && v != LONG && v != NOPIXELS && v != ASHORT && v != ALONG && !(m.mask && (m.cs != 1 || m.depth != 1 || m.adepth));
    int rc = add(r, m, &id);
    C((rc == 0) == ok, "verdict:image");
    C(add(r, m, &again) != 0, "verdict:image-added-twice");
    C(add(r2, last, &i2) == 0, "accepted:image");
    OK(capy_raster_image_destroy, r); OK(capy_raster_image_destroy, r0); OK(capy_raster_image_destroy, r2);
    show(i2);
    show(i0);
    if(ok) show(id);
    d->finish();
    check_image(xobject(0), last);
    check_image(xobject(1), first);
    if(ok) { check_image(xobject(2), m); capysym_reach("samples"); } else capysym_reach("refused");
}
static void rules() {
    // which images are accepted: every size and depth, document kinds
    int kind = capysym_choice("document", 3);
    static std::string icc[2] = {icc_rgb(), icc_cmyk_out()};
    if(kind == 1) { env::put("/m/p.icc", icc[1]); OK(capy_document_properties_set_colorspace, d->dp, CAPY_DEVICE_CS_CMYK); OK(capy_document_properties_set_device_profile, d->dp, CAPY_DEVICE_CS_CMYK, "/m/p.icc"); OK(capy_document_properties_set_pdfx, d->dp, capysym_choice("pdfx", 2) ? CAPY_PDFX_4 : CAPY_PDFX_3_2003); OK(capy_document_properties_set_output_intent, d->dp, "x", -1); }
    if(kind == 2) { env::put("/m/p.icc", icc[0]); OK(capy_document_properties_set_device_profile, d->dp, CAPY_DEVICE_CS_RGB, "/m/p.icc"); OK(capy_document_properties_set_pdfa, d->dp, CAPY_PDFA_4f); OK(capy_document_properties_set_output_intent, d->dp, "x", -1); }
    d->open(); g = d->g;
    Im m;
    m.cs = capysym_choice("colorspace", 3);
    m.w = (uint32_t)capysym_sym("w", 32); m.h = (uint32_t)capysym_sym("h", 32); m.depth = (int)capysym_sym("depth", 32);
    int what = capysym_choice("what", 3);           // which of the three is arbitrary
    if(what != 0) { m.w = 2; } if(what != 1) m.h = 1; if(what != 2) m.depth = 8;
    int na = what == 2 ? capysym_choice("alpha", 3) : 0;
    m.adepth = na ? (int)capysym_sym("adepth", 32) : 0;
    if(na == 1) m.depth = 8;
    size_t np = 2 * NCH[m.cs];
    symbytes(m.px, np, "px");
    if(na) symbytes(m.alpha, 2, "alpha");
    CapyPDF_RasterImageBuilder *b; CapyPDF_ImageId id;
    OK(capy_raster_image_builder_new, &b);
    OK(capy_raster_image_builder_set_alpha_depth, b, m.adepth);
    OK(capy_raster_image_builder_set_pixel_depth, b, m.depth);
    OK(capy_raster_image_builder_set_size, b, m.w, m.h);
    OK(capy_raster_image_builder_set_colorspace, b, CS[m.cs]);
    OK(capy_raster_image_builder_set_pixel_data, b, m.px.data(), m.px.size());
    if(na) OK(capy_raster_image_builder_set_alpha_data, b, m.alpha.data(), m.alpha.size());
    CapyPDF_RasterImage *r; OK(capy_raster_image_builder_build, b, &r); OK(capy_raster_image_builder_destroy, b);
    bool ok = m.w >= 1 && m.h >= 1;
    auto vd = [](int k) { return k == 1 || k == 2 || k == 4 || k == 8 || k == 16; };
    ok = ok && vd(m.depth) && (!na || vd(m.adepth));
    if(ok) ok = bytes(m.w, m.h, NCH[m.cs], m.depth) == np;
    if(ok && na) ok = bytes(m.w, m.h, 1, m.adepth) == 2;
    if(kind == 1 && m.cs == 0) ok = false;
    int rc = add(r, m, &id);
    C((rc == 0) == ok, "verdict:image-format");
    OK(capy_raster_image_destroy, r);
    if(ok) show(id); else d->add(d->page());
    d->finish();
    if(!ok) { capysym_reach("refused"); return; }
    m.w = (uint32_t)capysym_pick(m.w); m.h = (uint32_t)capysym_pick(m.h); m.depth = (int)capysym_pick(m.depth);
    if(!na) m.adepth = 0;
    check_image(xobject(0), m);
    capysym_reach("rules");
}
extern "C" void harness() {
    d = new D;
    if(PART == 0) samples(); else rules();
}
