// C15: image files are loaded with the pixels, transparency and profile they contain, or refused.
#include "imgmodels.hpp"
#include "content.hpp"
typedef const pdf::Obj *O;
static D *d;
static Gen *g;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool num(O o, double v) { return o && content::is_num(*o, v); }
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static const char *CSN[3] = {"DeviceRGB", "DeviceGray", "DeviceCMYK"};
static const CapyPDF_Image_Colorspace CS[3] = {CAPY_IMAGE_CS_RGB, CAPY_IMAGE_CS_GRAY, CAPY_IMAGE_CS_CMYK};
static const int NCH[3] = {3, 1, 4};
static const char *EXT[4][3] = {{".png", ".PNG", ".png"}, {".tif", ".TIFF", ".tiff"}, {".tif", ".TIF", ".tiff"}, {".jpg", ".JPEG", ".JPG"}};
enum { NROUTE = 5 };        // three spellings of the extension, no extension, memory
static int load(int fmt, int idx, int route, CapyPDF_RasterImage **r) {
    std::string data = imgfile(fmt, idx);
    int rc;
    if(route == 4) {
        std::vector<char> v(data.begin(), data.end());
        rc = capy_generator_load_image_from_memory(g, v.data(), v.size(), r);
        for(auto &c : v) c = 0;
    } else {
        std::string path = std::string("/m/dir.x/picture") + (route < 3 ? EXT[fmt][route] : "");
        env::put(path.c_str(), data);
        rc = capy_generator_load_image(g, path.c_str(), r);
    }
    C(live_png == 0 && live_tif == 0 && live_jpg == 0 && bad_use == 0, "library-objects-released");
    return rc;
}
struct Want { uint32_t w, h; int cs; std::string px; bool alpha = false; std::string al, icc; int depth = 8; };
static O image(int page) {
    O x = G(G(d->pg(page), "Resources"), "XObject");
    C(x && x->k == pdf::Dict && x->a.size() == 1 && x->a[0].k == pdf::Ref, "image-resource");
    return &x->a[0];
}
static void check_space(O im, int cs, const std::string &icc) {
    if(icc.empty()) { C(im->name_is("ColorSpace", CSN[cs]), "image-colorspace"); return; }
    O c = G(im, "ColorSpace");
    C(c && c->k == pdf::Array && c->a.size() == 2 && c->a[0].is("ICCBased") && c->a[1].k == pdf::Ref, "image-profile");
    C(num(G(d->out.deref(&c->a[1]), "N"), NCH[cs]), "image-profile-channels");
    C(same(d->stream(&c->a[1], "image-profile"), icc), "image-profile");
}
static O check_head(O ref, uint32_t w, uint32_t h) {
    O im = d->out.deref(ref);
    C(im && im->name_is("Type", "XObject") && im->name_is("Subtype", "Image"), "image-type");
    C(num(G(im, "Width"), w) && num(G(im, "Height"), h), "image-size");
    return im;
}
// adds the image and checks what the file says about it
static void check(CapyPDF_RasterImage *r, const Want &w) {
    uint32_t x, y; CapyPDF_Image_Colorspace cs; int pr;
    OK(capy_raster_image_get_size, r, &x, &y); C(x == w.w && y == w.h, "get-size");
    OK(capy_raster_image_get_colorspace, r, &cs); C(cs == CS[w.cs], "get-colorspace");
    OK(capy_raster_image_has_profile, r, &pr); C(pr == !w.icc.empty(), "has-profile");
    CapyPDF_ImageId id = addimage(g, r);
    OK(capy_raster_image_destroy, r);
    DC *dc = d->page(); OK(capy_dc_cmd_Do_image, dc, id); d->add(dc);
    d->finish();
    O ref = image(0), im = check_head(ref, w.w, w.h);
    C(num(G(im, "BitsPerComponent"), w.depth), "image-depth");
    C(!im->has("Decode") && !im->has("ImageMask"), "image-decode");
    check_space(im, w.cs, w.icc);
    C(im->has("SMask") == w.alpha, "image-alpha");
}
static void check8(CapyPDF_RasterImage *r, const Want &w) {
    check(r, w);
    O ref = image(0);
    C(same(d->stream(ref, "image-pixels"), w.px), "image-pixels");
    if(w.alpha) {
        O sr = d->out.deref(ref)->get("SMask"), s = check_head(sr, w.w, w.h);
        C(s->name_is("ColorSpace", "DeviceGray") && num(G(s, "BitsPerComponent"), 8) && !s->has("SMask"), "alpha-format");
        C(same(d->stream(sr, "image-alpha"), w.al), "image-alpha");
    }
    capysym_reach("loaded");
}
static std::string profile(int cs) { static std::string p[3] = {icc_rgb(), icc_gray(2.0), icc_cmyk_out()}; return p[cs]; }
#if PART == 0
// true colour and gray png
static void body() {
    static const int COL[4] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB_ALPHA};
    static const uint32_t W[3] = {1, 3, 9}, H[3] = {1, 2, 1};
    pics.resize(2);
    Pic &p = pics[1];
    int k = capysym_choice("type", 4), route = capysym_choice("route", NROUTE), sz = capysym_choice("size", 3), fail = sz == 1 ? capysym_choice("fails", 2) : 0;
    p.w = W[sz]; p.h = H[sz]; p.color = COL[k]; p.fail = fail;
    p.depth = k == 0 ? 1 << capysym_choice("depth", 5) : capysym_choice("depth", 2) ? 16 : 8;
    bool alpha = k >= 2;
    int nc = k & 1 ? 3 : 1, ch = nc + alpha;
    if(capysym_choice("profile", 2)) p.icc = profile(k & 1 ? 0 : 1);
    Want w;
    w.w = p.w; w.h = p.h; w.cs = k & 1 ? 0 : 1; w.alpha = alpha; w.icc = p.icc;
    for(uint32_t y = 0; y < p.h; y++) {
        std::string row;
        symbytes(row, ((size_t)p.w * ch * p.depth + 7) / 8, "row");
        for(uint32_t i = 0; i < p.w * ch; i++) {
            unsigned v;
            if(p.depth == 16) { v = (unsigned char)row[2 * i] << 8 | (unsigned char)row[2 * i + 1]; v = (v * 255 + 32895) >> 16; }
            else { v = (unsigned char)row[i * p.depth / 8] >> (8 - p.depth - i * p.depth % 8) & ((1 << p.depth) - 1); v = v * (255 / ((1 << p.depth) - 1)); }
            (alpha && i % ch == (unsigned)ch - 1 ? w.al : w.px) += (char)v;
        }
        p.rows.push_back(row);
    }
    CapyPDF_RasterImage *r = nullptr;
    int rc = load(FPNG, 1, route, &r);
    C((rc == 0) == !fail, "verdict:png");
    if(rc) { capysym_reach("refused"); return; }
    check8(r, w);
}
#elif PART == 1
// png with a palette: black, white and transparent
static void body() {
    enum { WHITE, BLACK, CLEAR, RED, HALF };
    static const png_color COL[5] = {{255, 255, 255}, {0, 0, 0}, {10, 20, 30}, {255, 0, 0}, {0, 0, 0}};
    static const unsigned char AL[5] = {255, 255, 0, 255, 128};
    pics.resize(2);
    Pic &p = pics[1];
    int n = capysym_choice("colors", 4) + 1, e[5];
    int sz = n == 4 ? 2 : n == 3 ? 1 + capysym_choice("size", 2) : capysym_choice("size", 3), trns = n == 4 ? 2 : capysym_choice("transparency", 3);
    int route = n == 2 && sz == 2 ? capysym_choice("route", NROUTE) : 0;
    static const uint32_t W[3] = {2, 8, 17}, H[3] = {2, 1, 3};
    p.w = W[sz]; p.h = H[sz]; p.color = PNG_COLOR_TYPE_PALETTE;
    bool clear = false, odd = false;
    for(int i = 0; i < n; i++) {
        e[i] = i < 3 ? capysym_choice("entry", n == 2 && trns ? 5 : 4) : (e[0] + 1) % 3;
        if(e[i] == RED && n > 2 && trns && i != 1) e[i] = HALF;
        png_color c = COL[e[i]];
        if(e[i] == CLEAR && i % 2) c = COL[0];       // what is under a transparent pixel does not matter
        p.palette.push_back(c);
    }
    if(trns) {
        // may stop before the end of the palette: the rest is opaque
        for(int i = 0; i < n; i++) p.trns += (char)AL[e[i]];
        if(trns == 2) while(!p.trns.empty() && p.trns.back() == (char)255) p.trns.pop_back();
    }
    for(int i = 0; i < n; i++) {
        int a = (size_t)i < p.trns.size() ? (unsigned char)p.trns[i] : 255;
        bool white = p.palette[i].red == 255 && p.palette[i].green == 255, black = p.palette[i].red == 0 && p.palette[i].green == 0;
        if(a == 0) clear = true; else if(a != 255 || !(white || black)) odd = true;
    }
    p.depth = n <= 2 ? 1 : 2;
    if(n <= 2 ? capysym_choice("deeper", 2) : sz == 1) p.depth = p.depth == 1 ? 8 : 4;
    if(n == 2 && trns == 0) p.icc = profile(1);         // dropped for images of two colours
    int turn = sz + e[0];
    std::vector<std::vector<int>> ix(p.h);
    for(uint32_t y = 0; y < p.h; y++) {
        std::string row((p.w * p.depth + 7) / 8, 0);
        for(uint32_t i = 0; i < p.w; i++) {
            int v = (i + (i * i + y) / 3 + y + turn) % n;
            ix[y].push_back(v);
            row[i * p.depth / 8] |= v << (8 - p.depth - i * p.depth % 8);
        }
        p.rows.push_back(row);
    }
    CapyPDF_RasterImage *r = nullptr;
    int rc = load(FPNG, 1, route, &r);
    // images with other colours, or partial transparency, may be refused but not misrepresented
    bool bw2 = n == 2 && !odd && !clear && p.palette[0].red != p.palette[1].red;
    bool bwa = n >= 2 && !odd && clear;
    if(bw2 || bwa) C(rc == 0, "verdict:palette");
    if(odd) C(rc != 0, "verdict:palette-colors");
    if(rc) { capysym_reach("refused"); return; }
    Want w;
    w.w = p.w; w.h = p.h; w.cs = 1; w.depth = 1; w.alpha = clear;
    if(n >= 3 && !clear) { capysym_reach("refused"); return; }       // all opaque: either way will do
    uint32_t x, y0; OK(capy_raster_image_get_size, r, &x, &y0);
    check(r, w);
    O ref = image(0);
    std::string px = d->stream(ref, "image-pixels"), al;
    size_t stride = (p.w + 7) / 8;
    C(px.size() == stride * p.h, "image-pixels");
    if(w.alpha) {
        O sr = d->out.deref(ref)->get("SMask"), s = check_head(sr, w.w, w.h);
        C(s->name_is("ColorSpace", "DeviceGray") && num(G(s, "BitsPerComponent"), 1), "alpha-format");
        al = d->stream(sr, "image-alpha");
        C(al.size() == stride * p.h, "image-alpha");
    }
    bool good = true, shifted = true, ag = true;
    for(uint32_t y = 0; y < p.h; y++) for(uint32_t i = 0; i < p.w; i++) {
        auto bit = [&](const std::string &s, uint32_t at) { return s[y * stride + at / 8] >> (7 - at % 8) & 1; };
        int v = ix[y][i];
        bool opq = (size_t)v >= p.trns.size() || p.trns[v] != 0;
        if(w.alpha) ag = ag & (bit(al, i) == opq);
        if(opq) good = good & (bit(px, i) == (p.palette[v].red == 255));
        // the rows of two colour images are moved to the left by one pixel
        if(p.w > 8) {
            uint32_t last = (p.w - 1) / 8 * 8;
            if(i + 1 < p.w && i < last) shifted = shifted & (bit(px, i) == (p.palette[ix[y][i + 1]].red == 255));
            if(i > last) shifted = shifted & (bit(px, i) == (p.palette[v].red == 255));
        } else shifted = false;
    }
    C(ag, "palette-alpha");
    if(n == 2 && !clear && shifted && !good) C(good, "palette-pixels-of-two-color-image-moved-left");
    else C(good, "palette-pixels");
    capysym_reach("loaded");
}
#elif PART == 2
// tiff
static void body() {
    pics.resize(3);
    Pic &p = pics[2];
    int what = capysym_choice("what", 4), route = what == 0 ? capysym_choice("route", NROUTE) : what == 2 ? 4 * capysym_choice("route", 2) : what, fmt = route == 1 || what == 3 ? FTIF2 : FTIF;
    p.w = 2; p.h = 3;
    p.spp = what == 2 ? 3 + capysym_choice("spp", 2) : capysym_choice("spp", 6) + 1;
    p.photometric = (uint16_t)(what == 3 ? capysym_sym("photometric", 16) : what == 2 ? 2 : capysym_choice("photo", 3) == 0 ? 1 : capysym_choice("photo2", 2) ? 2 : 5);
    p.bps = (uint16_t)(what == 1 ? capysym_sym("bps", 16) : 8);
    p.planar = (uint16_t)(what == 1 ? capysym_sym("planar", 16) : 1);
    if(what == 2) { int m = capysym_choice("damage", 10); if(m < 6) p.missing = 1 << m; else p.fail = m - 5; }
    for(uint32_t y = 0; y < p.h; y++) { std::string row; symbytes(row, p.w * p.spp, "row"); p.rows.push_back(row); }
    int nc = p.photometric == 1 ? 1 : p.photometric == 2 ? 3 : 4;
    bool fits = (p.photometric == 1 || p.photometric == 2 || p.photometric == 5) && (p.spp == nc || p.spp == nc + 1);
    bool ok = fits && p.bps == 8 && p.planar == 1 && !p.missing && !p.fail;
    int cs = nc == 3 ? 0 : nc == 1 ? 1 : 2;
    if(what == 0 && capysym_choice("profile", 2)) p.icc = profile(cs);
    CapyPDF_RasterImage *r = nullptr;
    int rc = load(fmt, 2, route, &r);
    C((rc == 0) == ok, "verdict:tiff");
    if(rc) { capysym_reach("refused"); return; }
    Want w;
    w.w = p.w; w.h = p.h; w.cs = cs; w.icc = p.icc; w.alpha = p.spp == nc + 1;
    for(auto &row : p.rows) for(size_t i = 0; i < row.size(); i++) (w.alpha && i % p.spp == (unsigned)nc ? w.al : w.px) += row[i];
    check8(r, w);
}
#elif PART == 3
// jpeg: embedded as it is
static void body() {
    pics.resize(4);
    Pic &p = pics[3];
    int what = capysym_choice("what", 4), route = capysym_choice("route", NROUTE), interp = what ? route % 3 : capysym_choice("interpolation", 3);
    p.w = route == 3 ? 1 : 640; p.h = 481;
    p.jcs = what == 1 ? (int)capysym_sym("jcs", 32) : (what == 2 ? route : capysym_choice("colors", 5)) + 1;
    p.precision = what == 2 ? (int)capysym_sym("precision", 32) : 8;
    if(what == 3) p.fail = capysym_choice("stage", 3) + 1;
    int cs = p.jcs == JCS_GRAYSCALE ? 1 : p.jcs == JCS_RGB || p.jcs == JCS_YCbCr ? 0 : 2;
    bool ok = p.precision == 8 && !p.fail && p.jcs >= JCS_GRAYSCALE && p.jcs <= JCS_YCCK;
    int prof = what == 0 ? capysym_choice("profile", 3) : 0;
    if(prof) p.icc = profile(prof == 1 ? cs : (cs + 1) % 3);
    CapyPDF_RasterImage *r = nullptr;
    int rc = load(FJPG, 3, route, &r);
    C((rc == 0) == ok, "verdict:jpeg");
    if(rc) { capysym_reach("refused"); return; }
    uint32_t x, y; OK(capy_raster_image_get_size, r, &x, &y); C(x == p.w && y == p.h, "get-size");
    CapyPDF_ImagePdfProperties *pr; CapyPDF_ImageId id;
    OK(capy_image_pdf_properties_new, &pr);
    OK(capy_image_pdf_properties_set_interpolate, pr, (CapyPDF_Image_Interpolation)interp);
    rc = capy_generator_add_image(g, r, pr, &id);
    C((rc == 0) == (prof != 2), "verdict:jpeg-profile");
    if(rc) { capysym_reach("refused"); return; }
    int again = capy_generator_add_image(g, r, pr, &id); (void)again;
    C(again != 0, "verdict:image-added-twice");
    OK(capy_image_pdf_properties_destroy, pr);
    OK(capy_raster_image_destroy, r);
    DC *dc = d->page(); OK(capy_dc_cmd_Do_image, dc, id); d->add(dc);
    OK(capy_generator_write, g);
    d->out.opaque_filters = true;
    d->parse();
    O ref = image(0), im = check_head(ref, p.w, p.h);
    C(num(G(im, "BitsPerComponent"), 8) && im->name_is("Filter", "DCTDecode"), "jpeg-format");
    check_space(im, cs, p.icc);
    O dec = G(im, "Decode");
    if(cs != 2) C(!dec, "jpeg-decode");
    else { C(dec && dec->k == pdf::Array && dec->a.size() == 8, "jpeg-decode"); for(int i = 0; i < 8; i++) C(num(&dec->a[i], i % 2 ? 0 : 1), "jpeg-decode"); }
    O ip = G(im, "Interpolate");
    C(interp == 0 ? !ip : ip && ip->k == pdf::Bool && ip->i == (interp == 1 ? 0 : 1), "image-interpolate");
    C(!im->has("ImageMask") && !im->has("SMask"), "jpeg-format");
    C(same(std::string(d->out.x[ref->i].data), imgfile(FJPG, 3)), "jpeg-data");
    capysym_reach("loaded");
}
#else
// which files are recognised
static void body() {
    pics.resize(2);
    for(auto &q : pics) { q.rows = {"\x05"}; q.color = PNG_COLOR_TYPE_GRAY; q.depth = 8; }
    int how = capysym_choice("how", 3);
    static const char *NAMES[10] = {"/m/a.png", "/m/a.PNG", "/m/a.tif", "/m/a.tiff", "/m/a.TIF", "/m/a.TIFF", "/m/a.jpg", "/m/a.jpeg", "/m/b.c/a", "/m/png"};
    static const int NF[10] = {FPNG, FPNG, FTIF, FTIF, FTIF, FTIF, FJPG, FJPG, -1, -1};
    CapyPDF_RasterImage *r = nullptr;
    int rc; bool ok;
    if(how == 0) {
        // a missing file, an empty file, or a file of another type
        int n = capysym_choice("name", 10), c = capysym_choice("contents", 5);
        if(c == 1) env::put(NAMES[n], "", 0);
        if(c >= 2) env::put(NAMES[n], imgfile(c == 2 ? FPNG : c == 3 ? FTIF : FJPG, 1));
        rc = capy_generator_load_image(g, NAMES[n], &r);
        int f = c < 2 ? -2 : c == 2 ? FPNG : c == 3 ? FTIF : FJPG;
        ok = c >= 2 && (NF[n] == -1 || NF[n] == f);
    } else {
        // arbitrary first bytes, all lengths
        int n = capysym_choice("size", 14), base = capysym_choice("base", 3);
        std::string s;
        symbytes(s, n, "data");
        if(base && n >= 4) { std::string k = imgfile(base == 1 ? FPNG : FJPG, 1); s.replace(0, base == 1 && n >= 8 ? 6 : 2, k, 0, base == 1 && n >= 8 ? 6 : 2); }
        else if(base) return;
        if(how == 1) { env::put("/m/noext", s); rc = capy_generator_load_image(g, "/m/noext", &r); }
        else { std::vector<char> v(s.begin(), s.end()); v.push_back(0); rc = capy_generator_load_image_from_memory(g, v.data(), n, &r); }
        ok = false;
        if(n >= 10) for(int f : {FPNG, FTIF, FJPG}) { Pic *p = pic_of(s.data(), n, f); if(p && p == &pics[1]) ok = true; }
        // pics[0] is a picture as well
        if(n >= 10) for(int f : {FPNG, FTIF, FJPG}) { Pic *p = pic_of(s.data(), n, f); if(p && p == &pics[0]) ok = true; }
    }
    C(live_png == 0 && live_tif == 0 && live_jpg == 0 && bad_use == 0, "library-objects-released");
    C((rc == 0) == ok, "verdict:recognised");
    if(rc == 0) { OK(capy_raster_image_destroy, r); capysym_reach("loaded"); } else capysym_reach("refused");
    CapyPDF_RasterImage *x = nullptr;
    if(how == 2) { int neg = capysym_choice("negative", 2); char b[16] = {}; C(capy_generator_load_image_from_memory(g, b, neg ? -1 : 0, &x) != 0, "verdict:size"); }
}
#endif
extern "C" void harness() {
    D dd; d = &dd;
    d->open(); g = d->g;
    body();
}
