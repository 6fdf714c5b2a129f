// Conveniences for building documents through the public C API.
#pragma once
#include "capysym.h"
#include "env.hpp"
#include "pdf.hpp"
#include <capypdf.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#define OK(fn, ...) capysym_check(fn(__VA_ARGS__) == 0, "accepted:" #fn)
#define C(cond, label) capysym_check(!!(cond), label)
typedef CapyPDF_DrawContext DC;
typedef CapyPDF_Generator Gen;

inline void symbytes(std::string &s, size_t n, const char *name) { s.assign(n, 'x'); capysym_bytes(s.data(), n, name); }
// n symbolic characters in the given range
inline std::string symchars(size_t n, const char *name, unsigned char lo = 32, unsigned char hi = 126) {
    std::string s;
    symbytes(s, n, name);
    for(size_t i = 0; i < n; i++) capysym_assume((unsigned char)s[i] >= lo && (unsigned char)s[i] <= hi);
    return s;
}
struct D {
    CapyPDF_DocumentProperties *dp = nullptr;
    Gen *g = nullptr;
    std::string fname = "/m/out.pdf";
    pdf::Doc out;
    D() { env::init(); OK(capy_document_properties_new, &dp); }
    void debug() { setenv("CAPY_DEBUG_PDF", "1", 1); CapyPDF_DocumentProperties *o = dp; OK(capy_document_properties_new, &dp); capy_document_properties_destroy(o); }
    void open() { OK(capy_generator_new, fname.c_str(), dp, &g); }
    DC *page() { DC *dc = nullptr; OK(capy_page_draw_context_new, g, &dc); return dc; }
    void add(DC *dc) { OK(capy_generator_add_page, g, dc); }
    bool try_write() { return capy_generator_write(g) == 0; }
    // writes, then reads the file back with the oracle
    void finish() {
        OK(capy_generator_write, g);
        parse();
    }
    void parse() {
        env::File *f = env::find(fname.c_str());
        C(f, "output-file-exists");
        bool ok = out.parse(f->data);
        if(!ok) { capysym_logs(out.err, strlen(out.err)); capysym_log("info", out.errinfo); }
        C(ok, out.err ? out.err : "container");
    }
    // Page dictionary object of page n (checked)
    const pdf::Obj *pg(size_t n) {
        auto p = out.pages();
        C(!out.err, out.err ? out.err : "pages");
        C(n < p.size(), "page-present");
        return &out.x[p[n]].o;
    }
    std::string contents(const pdf::Obj *page) {
        const pdf::Obj *c = page->get("Contents");
        C(c && c->k == pdf::Ref, "page-contents-ref");
        std::string s;
        C(out.content(c->i, s), "page-contents-stream");
        return s;
    }
    std::string stream(const pdf::Obj *ref, const char *label) {
        C(ref && ref->k == pdf::Ref, label);
        std::string s;
        C(out.content(ref->i, s), label);
        return s;
    }
};
#include <lcms2.h>
// An ICC profile made by lcms itself (runs natively: no symbolic data in it).
inline std::string icc_rgb() {
    cmsHPROFILE h = cmsCreate_sRGBProfile();
    cmsUInt32Number n = 0;
    cmsSaveProfileToMem(h, nullptr, &n);
    std::string s(n, 0);
    cmsSaveProfileToMem(h, s.data(), &n);
    cmsCloseProfile(h);
    return s;
}
// an RGB profile that is not sRGB
inline std::string icc_rgb2(double gamma = 2.2) {
    cmsToneCurve *c = cmsBuildGamma(nullptr, gamma), *c3[3] = {c, c, c};
    cmsCIExyYTRIPLE prim = {{0.64, 0.33, 1}, {0.21, 0.71, 1}, {0.15, 0.06, 1}};
    cmsHPROFILE h = cmsCreateRGBProfile(cmsD50_xyY(), &prim, c3);
    cmsFreeToneCurve(c);
    cmsUInt32Number n = 0;
    cmsSaveProfileToMem(h, nullptr, &n);
    std::string s(n, 0);
    cmsSaveProfileToMem(h, s.data(), &n);
    cmsCloseProfile(h);
    return s;
}
inline std::string icc_gray(double gamma = 1.0) {
    cmsToneCurve *c = cmsBuildGamma(nullptr, gamma);
    cmsHPROFILE h = cmsCreateGrayProfile(cmsD50_xyY(), c);
    cmsFreeToneCurve(c);
    cmsUInt32Number n = 0;
    cmsSaveProfileToMem(h, nullptr, &n);
    std::string s(n, 0);
    cmsSaveProfileToMem(h, s.data(), &n);
    cmsCloseProfile(h);
    return s;
}
inline std::string icc_cmyk(double limit = 300) {
    cmsHPROFILE h = cmsCreateInkLimitingDeviceLink(cmsSigCmykData, limit);
    cmsSetDeviceClass(h, cmsSigOutputClass);
    cmsUInt32Number n = 0;
    cmsSaveProfileToMem(h, nullptr, &n);
    std::string s(n, 0);
    cmsSaveProfileToMem(h, s.data(), &n);
    cmsCloseProfile(h);
    return s;
}
// A small but complete CMYK output profile (Lab connection space, two-point tables): usable in both directions.
inline std::string icc_cmyk_out() {
    cmsHPROFILE h = cmsCreateProfilePlaceholder(nullptr);
    cmsSetProfileVersion(h, 2.4);
    cmsSetDeviceClass(h, cmsSigOutputClass);
    cmsSetColorSpace(h, cmsSigCmykData);
    cmsSetPCS(h, cmsSigLabData);
    cmsToneCurve *id = cmsBuildGamma(nullptr, 1.0), *c4[4] = {id, id, id, id};
    for(int dir = 0; dir < 2; dir++) {
        unsigned in = dir ? 3 : 4, out = dir ? 4 : 3, n = 1u << in;
        std::vector<cmsUInt16Number> t(n * out);
        for(unsigned i = 0; i < n; i++) for(unsigned o = 0; o < out; o++) {
            // the last input varies fastest
            if(dir) { unsigned L = i >> 2 & 1; t[i * out + o] = o == 3 ? (L ? 0 : 0xffff) : 0; }
            else { unsigned ink = (i >> 3 & 1) + (i >> 2 & 1) + (i >> 1 & 1), k = i & 1; t[i * out + o] = o == 0 ? (cmsUInt16Number)(k ? 0 : 0xff00 - 0x2000 * ink) : 0x8000; }
        }
        cmsPipeline *p = cmsPipelineAlloc(nullptr, in, out);
        cmsPipelineInsertStage(p, cmsAT_END, cmsStageAllocToneCurves(nullptr, in, c4));
        cmsPipelineInsertStage(p, cmsAT_END, cmsStageAllocCLut16bit(nullptr, 2, in, out, t.data()));
        cmsPipelineInsertStage(p, cmsAT_END, cmsStageAllocToneCurves(nullptr, out, c4));
        for(cmsTagSignature s : dir ? std::vector<cmsTagSignature>{cmsSigBToA0Tag, cmsSigBToA1Tag, cmsSigBToA2Tag} : std::vector<cmsTagSignature>{cmsSigAToB0Tag, cmsSigAToB1Tag, cmsSigAToB2Tag}) cmsWriteTag(h, s, p);
        cmsPipelineFree(p);
    }
    cmsFreeToneCurve(id);
    cmsWriteTag(h, cmsSigMediaWhitePointTag, cmsD50_XYZ());
    cmsUInt32Number n = 0;
    cmsSaveProfileToMem(h, nullptr, &n);
    std::string s(n, 0);
    cmsSaveProfileToMem(h, s.data(), &n);
    cmsCloseProfile(h);
    return s;
}
inline CapyPDF_Color *rgb(double r, double g, double b) { CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_rgb, c, r, g, b); return c; }
inline CapyPDF_Color *gray(double v) { CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_gray, c, v); return c; }
inline CapyPDF_Color *cmyk(double a, double b, double d, double k) { CapyPDF_Color *c; OK(capy_color_new, &c); OK(capy_color_set_cmyk, c, a, b, d, k); return c; }
inline CapyPDF_RasterImage *raster(uint32_t w, uint32_t h, uint32_t depth, CapyPDF_Image_Colorspace cs, const std::string &px, uint32_t adepth = 0, const std::string &alpha = std::string(), CapyPDF_Compression comp = CAPY_COMPRESSION_NONE) {
    CapyPDF_RasterImageBuilder *b;
    OK(capy_raster_image_builder_new, &b);
    OK(capy_raster_image_builder_set_size, b, w, h);
    OK(capy_raster_image_builder_set_pixel_depth, b, depth);
    OK(capy_raster_image_builder_set_pixel_data, b, px.data(), px.size());
    if(adepth) { OK(capy_raster_image_builder_set_alpha_depth, b, adepth); OK(capy_raster_image_builder_set_alpha_data, b, alpha.data(), alpha.size()); }
    OK(capy_raster_image_builder_set_colorspace, b, cs);
    OK(capy_raster_image_builder_set_input_data_compression_format, b, comp);
    CapyPDF_RasterImage *r;
    OK(capy_raster_image_builder_build, b, &r);
    OK(capy_raster_image_builder_destroy, b);
    return r;
}
inline CapyPDF_ImageId addimage(Gen *g, CapyPDF_RasterImage *im, bool mask = false, CapyPDF_Image_Interpolation ip = CAPY_INTERPOLATION_AUTO) {
    CapyPDF_ImagePdfProperties *p;
    CapyPDF_ImageId id;
    OK(capy_image_pdf_properties_new, &p);
    if(mask) OK(capy_image_pdf_properties_set_mask, p, 1);
    OK(capy_image_pdf_properties_set_interpolate, p, ip);
    OK(capy_generator_add_image, g, im, p, &id);
    capy_image_pdf_properties_destroy(p);
    return id;
}
inline CapyPDF_FunctionId fn2(Gen *g, CapyPDF_Color *a, CapyPDF_Color *b) {
    double dom[2] = {0, 1};
    CapyPDF_Function *f;
    CapyPDF_FunctionId id;
    OK(capy_type2_function_new, dom, 2, a, b, 1.0, &f);
    OK(capy_generator_add_function, g, f, &id);
    capy_function_destroy(f);
    return id;
}
inline CapyPDF_OptionalContentGroupId ocg(Gen *g, const char *name) {
    CapyPDF_OptionalContentGroup *o; CapyPDF_OptionalContentGroupId id;
    OK(capy_optional_content_group_new, &o, name);
    OK(capy_generator_add_optional_content_group, g, o, &id);
    capy_optional_content_group_destroy(o);
    return id;
}
inline CapyPDF_StructureItemId sitem(Gen *g, CapyPDF_Structure_Type t, const CapyPDF_StructureItemId *parent = nullptr, CapyPDF_StructItemExtraData *x = nullptr) {
    CapyPDF_StructureItemId id;
    OK(capy_generator_add_structure_item, g, t, parent, x, &id);
    return id;
}
inline CapyPDF_AnnotationId annot(Gen *g, CapyPDF_Annotation *a, bool rect = true) {
    CapyPDF_AnnotationId id;
    if(rect) OK(capy_annotation_set_rectangle, a, 10, 20, 30, 40);
    OK(capy_generator_add_annotation, g, a, &id);
    capy_annotation_destroy(a);
    return id;
}
