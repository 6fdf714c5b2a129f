// Container integrity for every ordered pair of document features under every file configuration.
#include "features.hpp"
extern "C" void harness(void) {
    D d;
    int cfg = capysym_choice("config", 4);           // bit 0: plain/compressed, bit 1: PDF/A (classic xref) or not
    if(cfg & 1) d.debug();
    Sym s;
    s.t = symchars(1, "text");
    symbytes(s.b, 1, "bytes");
#ifdef ONE
    int pre = capysym_choice("pre", NPRE), a = capysym_choice("feature", NFEAT), b = -1;
#else
    int pre = 0, a = capysym_choice("first", NFEAT), b = capysym_choice("second", NFEAT);
#endif
    // PDF/X forbids device RGB images and needs an output profile matching the output colour space
    if((cfg & 2) && (a == 1 || b == 1 || pre == 7)) capysym_end();
    if(cfg & 2) {
        env::put("/m/rgb.icc", icc_rgb());
        OK(capy_document_properties_set_device_profile, d.dp, CAPY_DEVICE_CS_RGB, "/m/rgb.icc");
        OK(capy_document_properties_set_pdfx, d.dp, CAPY_PDFX_3_2003);
        OK(capy_document_properties_set_output_intent, d.dp, "sRGB", -1);
    }
    pre_feature(d, pre, s);
    d.open();
    DC *dc = d.page();
    feature(d, dc, a, s);
    if(b >= 0) feature(d, dc, b, s);
    d.add(dc);
    d.finish();
    C(d.out.pages().size() == size_t(1 + (a == 41) + (b == 41)), "page-count");
    C(!d.out.err, d.out.err ? d.out.err : "pages");
    capysym_reach("done");
}
