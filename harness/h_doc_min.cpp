#include "capysym.h"
#include "env.hpp"
#include "pdf.hpp"
#include <capypdf.h>
#include <stdlib.h>
extern "C" void harness(void) {
    env::init();
    if(capysym_choice("dbg",2)) setenv("CAPY_DEBUG_PDF", "1", 1);
    CapyPDF_DocumentProperties *dp = nullptr;
    CapyPDF_Generator *g = nullptr;
    capysym_check(capy_document_properties_new(&dp) == 0, "t0");
    capysym_check(capy_generator_new("/m/out.pdf", dp, &g) == 0, "t1");
    CapyPDF_DrawContext *dc = nullptr;
    capysym_check(capy_page_draw_context_new(g, &dc) == 0, "t2");
    capysym_check(capy_dc_cmd_q(dc) == 0, "t");
    int which = capysym_choice("op", 4);
    if(which == 1) capysym_check(capy_dc_cmd_Q(dc) == 0, "t");
    int rc = capy_generator_add_page(g, dc);
    capysym_log("rc", rc);
    int rc2 = capy_generator_write(g);
    capysym_log("rc2", rc2);
    env::File *f = env::find("/m/out.pdf");
    if(!f) { capysym_log("nofile", 0); return; }
    capysym_log("size", f->data.size());
    pdf::Doc d;
    bool ok = d.parse(f->data);
    if(!ok) capysym_logs(d.err, strlen(d.err));
    capysym_check(ok, "parse");
    capysym_log("npages", d.pages().size());
    capysym_reach("done");
}
