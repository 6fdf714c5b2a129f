// Models of libpng, libtiff and libjpeg.  An image file is a signature followed by the index of a picture in `pics`;
// the models decode such a file into that picture, the way the libraries document, and report damage like they do.
#pragma once
#include "doc.hpp"
#include <png.h>
#include <tiffio.h>
#include <stdio.h>
#include <jpeglib.h>
#include <setjmp.h>
#include <stdarg.h>
#define MODEL extern "C" __attribute__((used))
struct Pic {
    uint32_t w = 1, h = 1;
    int fail = 0;                       // stage at which the library reports an error
    std::string icc;
    // png
    int color = 0, depth = 8;
    std::vector<png_color> palette;
    std::string trns;
    std::vector<std::string> rows;      // packed, 16-bit samples big endian; for tiff the scanlines
    // tiff (samples per pixel, photometric interpretation, planar configuration, missing tags)
    uint16_t spp = 1, photometric = 1, planar = 1, bps = 8; unsigned missing = 0;
    // jpeg
    int jcs = 1, precision = 8;
};
inline std::vector<Pic> pics;
inline int live_png, live_tif, live_jpg, bad_use;    // library objects not released; calls out of order
inline const std::string PNGSIG("\x89PNG\r\n\x1a\n", 8), JPGSIG("\xff\xd8\xff", 3), TIFSIG("II*\0", 4), TIFSIG2("MM\0*", 4);
enum { FPNG, FTIF, FTIF2, FJPG };
inline std::string imgfile(int fmt, int idx) {
    std::string s = fmt == FPNG ? PNGSIG : fmt == FTIF ? TIFSIG : fmt == FTIF2 ? TIFSIG2 : JPGSIG;
    s.resize(fmt == FPNG ? 8 : 4, '\xe0');
    s += (char)idx;
    return s + "compressed data";
}
inline Pic *pic_of(const char *p, size_t n, int fmt) {
    size_t at = fmt == FPNG ? 8 : 4;
    if(n <= at) return nullptr;
    if(fmt == FPNG ? memcmp(p, PNGSIG.data(), 8) != 0 : fmt == FJPG ? memcmp(p, JPGSIG.data(), 3) != 0 : memcmp(p, TIFSIG.data(), 4) != 0 && memcmp(p, TIFSIG2.data(), 4) != 0) return nullptr;
    unsigned i = (unsigned char)p[at];
    for(size_t k = 0; k < pics.size(); k++) if(i == k) return &pics[k];
    return nullptr;
}
// ---------------------------------------------------------------- libpng
struct PngS { jmp_buf jb; FILE *f = nullptr; Pic *p = nullptr; bool infod = false; int transforms = 0; std::vector<std::string> rows; std::vector<unsigned char *> ptrs; int depth = 0, color = 0; };
MODEL png_structp model_png_create_read_struct(const char *ver, void *, png_error_ptr, png_error_ptr) {
    if(!ver || ver[0] != PNG_LIBPNG_VER_STRING[0]) return nullptr;
    live_png++;
    return (png_structp) new PngS;
}
MODEL png_infop model_png_create_info_struct(png_structp p) { live_png++; ((PngS *)p)->infod = true; return (png_infop)((char *)p + 1); }
MODEL jmp_buf *model_png_set_longjmp_fn(png_structp p, void (*)(jmp_buf, int), size_t n) { if(n != sizeof(jmp_buf)) bad_use++; return &((PngS *)p)->jb; }
MODEL void model_png_init_io(png_structp p, FILE *f) { ((PngS *)p)->f = f; }
MODEL void model_png_read_png(png_structp pp, png_infop i, int transforms, void *) {
    PngS *p = (PngS *)pp;
    char buf[10];
    if((char *)i != (char *)pp + 1 || !p->f) { bad_use++; longjmp(p->jb, 1); }
    size_t n = fread(buf, 1, 10, p->f);
    Pic *q = pic_of(buf, n, FPNG);
    if(!q || q->fail) longjmp(p->jb, 1);
    if(transforms & ~(PNG_TRANSFORM_SCALE_16 | PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING)) capysym_fail("model:png-transform");
    p->p = q; p->transforms = transforms;
    int ch = q->color == PNG_COLOR_TYPE_RGB ? 3 : q->color == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : q->color == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1;
    p->depth = q->depth; p->color = q->color;
    for(auto &r : q->rows) {
        std::string o = r;
        size_t ns = (size_t)q->w * ch;
        if(q->depth == 16 && (transforms & (PNG_TRANSFORM_SCALE_16 | PNG_TRANSFORM_STRIP_16))) {
            o.clear();
            for(size_t k = 0; k < ns; k++) {
                unsigned v = (unsigned)(unsigned char)r[2 * k] << 8 | (unsigned char)r[2 * k + 1];
                o += transforms & PNG_TRANSFORM_SCALE_16 ? (char)((v * 255 + 32895) >> 16) : (char)(v >> 8);
            }
        } else if(q->depth < 8 && (transforms & PNG_TRANSFORM_PACKING)) {
            o.clear();
            for(size_t k = 0; k < ns; k++) o += (char)((unsigned char)r[k * q->depth / 8] >> (8 - q->depth - k * q->depth % 8) & ((1 << q->depth) - 1));
        }
        p->rows.push_back(o);
    }
    if(q->depth == 16 && (transforms & (PNG_TRANSFORM_SCALE_16 | PNG_TRANSFORM_STRIP_16))) p->depth = 8;
    if(q->depth < 8 && (transforms & PNG_TRANSFORM_PACKING)) p->depth = 8;
    for(auto &r : p->rows) p->ptrs.push_back((unsigned char *)r.data());
}
#define PS ((PngS *)p)
MODEL unsigned char **model_png_get_rows(png_const_structp p, png_const_infop) { return PS->ptrs.data(); }
MODEL uint32_t model_png_get_image_width(png_const_structp p, png_const_infop) { return PS->p->w; }
MODEL uint32_t model_png_get_image_height(png_const_structp p, png_const_infop) { return PS->p->h; }
MODEL unsigned char model_png_get_color_type(png_const_structp p, png_const_infop) { return PS->color; }
MODEL unsigned char model_png_get_bit_depth(png_const_structp p, png_const_infop) { return PS->depth; }
MODEL unsigned char model_png_get_channels(png_const_structp p, png_const_infop) { int c = PS->color; return c == PNG_COLOR_TYPE_RGB ? 3 : c == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : c == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1; }
MODEL size_t model_png_get_rowbytes(png_const_structp p, png_const_infop) { return PS->rows.empty() ? 0 : PS->rows[0].size(); }
MODEL uint32_t model_png_get_iCCP(png_const_structp p, png_infop, char **name, int *comp, unsigned char **data, uint32_t *n) {
    if(PS->p->icc.empty()) return 0;
    *name = (char *)"icc"; *comp = 0; *data = (unsigned char *)PS->p->icc.data(); *n = PS->p->icc.size();
    return PNG_INFO_iCCP;
}
MODEL uint32_t model_png_get_PLTE(png_const_structp p, png_infop, png_color **pal, int *n) {
    if(PS->p->palette.empty()) return 0;
    *pal = PS->p->palette.data(); *n = PS->p->palette.size();
    return PNG_INFO_PLTE;
}
MODEL uint32_t model_png_get_tRNS(png_const_structp p, png_infop, unsigned char **t, int *n, png_color_16 **) {
    if(PS->p->trns.empty()) { *n = 0; return 0; }
    *t = (unsigned char *)PS->p->trns.data(); *n = PS->p->trns.size();
    return PNG_INFO_tRNS;
}
MODEL uint32_t model_png_get_valid(png_const_structp p, png_const_infop, uint32_t what) { return (PS->p->trns.empty() ? 0u : PNG_INFO_tRNS & what) | (PS->p->palette.empty() ? 0u : PNG_INFO_PLTE & what) | (PS->p->icc.empty() ? 0u : PNG_INFO_iCCP & what); }
MODEL void model_png_destroy_info_struct(png_const_structp p, png_infop *i) { if(p && *i) { if(!PS->infod) bad_use++; PS->infod = false; live_png--; *i = nullptr; } }
MODEL void model_png_destroy_read_struct(png_structp *p, png_infop *i, png_infop *j) {
    if(i && *i) model_png_destroy_info_struct(*p, i);
    if(j && *j) model_png_destroy_info_struct(*p, j);
    if(p && *p) { delete(PngS *)*p; live_png--; *p = nullptr; }
}
// ---------------------------------------------------------------- libtiff
struct TifS { Pic *p; TIFFCloseProc close = nullptr; void *h = nullptr; FILE *f = nullptr; };
MODEL TIFF *model_TIFFOpen(const char *name, const char *mode) {
    env::File *f = env::find(name);
    if(!f || mode[0] != 'r') return nullptr;
    Pic *p = pic_of(f->data.data(), f->data.size(), FTIF);
    if(!p || p->fail == 1) return nullptr;
    live_tif++;
    return (TIFF *)new TifS{p};
}
MODEL TIFF *model_TIFFClientOpen(const char *, const char *mode, thandle_t h, TIFFReadWriteProc rd, TIFFReadWriteProc, TIFFSeekProc seek, TIFFCloseProc close, TIFFSizeProc size, TIFFMapFileProc map, TIFFUnmapFileProc unmap) {
    char buf[12];
    if(mode[0] != 'r') return nullptr;
    toff_t n = size(h), ms = 0;
    if(seek(h, 0, SEEK_SET) != 0) return nullptr;
    tmsize_t got = rd(h, buf, 5);
    if(got != (n < 5 ? (tmsize_t)n : 5)) return nullptr;
    if(n >= 10) {       // anywhere in the file, and not past its end
        char b2[4];
        if(seek(h, 4, SEEK_SET) != 4 || rd(h, b2, 2) != 2 || b2[0] != buf[4] || seek(h, -1, SEEK_CUR) != 5 || rd(h, b2 + 2, 1) != 1 || b2[2] != b2[1]) return nullptr;
        if(seek(h, n - 2, SEEK_SET) != n - 2 || rd(h, b2, 4) != 2) return nullptr;
    }
    void *base = nullptr;
    if(map && map(h, &base, &ms)) { if(ms != n || memcmp(base, buf, got) != 0) return nullptr; if(unmap) unmap(h, base, ms); }
    Pic *p = pic_of(buf, (size_t)got, FTIF);
    if(!p || p->fail == 1) return nullptr;
    live_tif++;
    return (TIFF *)new TifS{p, close, h};
}
MODEL void model_TIFFClose(TIFF *t) { TifS *s = (TifS *)t; if(s->close) s->close(s->h); delete s; live_tif--; }
MODEL int model_TIFFGetField(TIFF *t, uint32_t tag, ...) {
    Pic *p = ((TifS *)t)->p;
    va_list ap;
    va_start(ap, tag);
    int rc = 1;
    switch(tag) {
    case TIFFTAG_IMAGEWIDTH: if(p->missing & 1) rc = 0; else *va_arg(ap, uint32_t *) = p->w; break;
    case TIFFTAG_IMAGELENGTH: if(p->missing & 2) rc = 0; else *va_arg(ap, uint32_t *) = p->h; break;
    case TIFFTAG_BITSPERSAMPLE: if(p->missing & 4) rc = 0; else *va_arg(ap, uint16_t *) = p->bps; break;
    case TIFFTAG_SAMPLESPERPIXEL: if(p->missing & 8) rc = 0; else *va_arg(ap, uint16_t *) = p->spp; break;
    case TIFFTAG_PHOTOMETRIC: if(p->missing & 16) rc = 0; else *va_arg(ap, uint16_t *) = p->photometric; break;
    case TIFFTAG_PLANARCONFIG: if(p->missing & 32) rc = 0; else *va_arg(ap, uint16_t *) = p->planar; break;
    case TIFFTAG_ICCPROFILE:
        if(p->icc.empty()) rc = 0;
        else { *va_arg(ap, uint32_t *) = p->icc.size(); *va_arg(ap, void **) = (void *)p->icc.data(); }
        break;
    default: rc = 0;
    }
    va_end(ap);
    return rc;
}
MODEL uint64_t model_TIFFScanlineSize64(TIFF *t) { Pic *p = ((TifS *)t)->p; return p->rows.empty() ? 0 : p->rows[0].size(); }
MODEL tmsize_t model_TIFFScanlineSize(TIFF *t) { return (tmsize_t)model_TIFFScanlineSize64(t); }
MODEL int model_TIFFReadScanline(TIFF *t, void *buf, uint32_t row, uint16_t) {
    Pic *p = ((TifS *)t)->p;
    if(row >= p->rows.size() || (p->fail >= 2 && (uint32_t)p->fail - 2 == row)) return -1;
    memcpy(buf, p->rows[row].data(), p->rows[row].size());
    return 1;
}
MODEL int model_TIFFIsTiled(TIFF *) { return 0; }
// ---------------------------------------------------------------- libjpeg
struct JpgS { const char *buf = nullptr; size_t n = 0; FILE *f = nullptr; bool app2 = false, created = false; Pic *p = nullptr; };
inline JpgS jpgs;
MODEL jpeg_error_mgr *model_jpeg_std_error(jpeg_error_mgr *e) { memset((void *)e, 0, sizeof *e); return e; }
static void jpg_fail(jpeg_decompress_struct *c) { c->err->error_exit((j_common_ptr)c); bad_use++; capysym_fail("jpeg-error-returned"); }
MODEL void model_jpeg_CreateDecompress(jpeg_decompress_struct *c, int version, size_t n) {
    if(version != JPEG_LIB_VERSION || n != sizeof *c) bad_use++;
    auto *e = c->err;
    memset((void *)c, 0, sizeof *c);
    c->err = e;
    live_jpg++;
    jpgs = JpgS{};
    jpgs.created = true;
}
MODEL void model_jpeg_stdio_src(jpeg_decompress_struct *, FILE *f) { jpgs.f = f; }
MODEL void model_jpeg_mem_src(jpeg_decompress_struct *, const unsigned char *b, unsigned long n) { jpgs.buf = (const char *)b; jpgs.n = n; }
MODEL void model_jpeg_save_markers(jpeg_decompress_struct *, int code, unsigned n) { if(code == JPEG_APP0 + 2 && n == 0xFFFF) jpgs.app2 = true; }
MODEL int model_jpeg_read_header(jpeg_decompress_struct *c, boolean) {
    char b[8]; size_t n;
    if(jpgs.f) n = fread(b, 1, 8, jpgs.f);
    else { n = jpgs.n < 8 ? jpgs.n : 8; memcpy(b, jpgs.buf, n); }
    Pic *p = jpgs.p = pic_of(b, n, FJPG);
    if(!p || p->fail == 1) jpg_fail(c);
    c->image_width = p->w; c->image_height = p->h;
    c->jpeg_color_space = (J_COLOR_SPACE)p->jcs;
    c->data_precision = p->precision;
    c->num_components = p->jcs == JCS_GRAYSCALE ? 1 : p->jcs == JCS_CMYK || p->jcs == JCS_YCCK ? 4 : 3;
    c->out_color_space = p->jcs == JCS_YCbCr ? JCS_RGB : p->jcs == JCS_YCCK ? JCS_CMYK : c->jpeg_color_space;
    return p->fail == 3 ? JPEG_SUSPENDED : JPEG_HEADER_OK;
}
MODEL boolean model_jpeg_start_decompress(jpeg_decompress_struct *c) {
    if(!jpgs.p) bad_use++;
    if(jpgs.p->fail == 2) jpg_fail(c);
    c->output_width = c->image_width; c->output_height = c->image_height;
    return TRUE;
}
MODEL boolean model_jpeg_read_icc_profile(jpeg_decompress_struct *, JOCTET **buf, unsigned *n) {
    *buf = nullptr; *n = 0;
    if(!jpgs.app2 || jpgs.p->icc.empty()) return FALSE;
    *buf = (JOCTET *)malloc(jpgs.p->icc.size());
    memcpy(*buf, jpgs.p->icc.data(), jpgs.p->icc.size());
    *n = jpgs.p->icc.size();
    return TRUE;
}
MODEL void model_jpeg_destroy_decompress(jpeg_decompress_struct *) { if(!jpgs.created) bad_use++; jpgs.created = false; live_jpg--; }
MODEL void model_jpeg_destroy(j_common_ptr) { model_jpeg_destroy_decompress(nullptr); }
