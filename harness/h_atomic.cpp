// C07: the destination is replaced atomically, whatever operation fails and wherever the process dies.
#include "features.hpp"
static std::string dest_name, old_content, newdoc;
static bool had_old;
static int crash_points;
// What a reader (or a machine coming up after a crash) finds under the destination's name.
static void crash_point(char) {
    crash_points++;
    env::File *f = env::find(dest_name.c_str());
    if(env::E->renames == 0) {
        C(!!f == had_old, "destination-appears-early");
        if(f) C(f->data == old_content, "destination-modified-before-commit");
    } else {
        C(f && f->data == env::E->rename_content && f->synced == f->data, "destination-not-durable");
    }
}
extern "C" void harness(void) {
    D d;
    static const char *names[] = {"/m/out.pdf", "/m/out", "/m/out.pdf~", "/m/a.b/c.d.pdf"};
    int ni = capysym_choice("name", 4);
    d.fname = dest_name = names[ni];
    had_old = capysym_choice("old-file", 2);
    int cfg = capysym_choice("config", 3);
    if(had_old) { old_content = "previous contents"; env::put(dest_name.c_str(), old_content); }
    if(capysym_choice("stale-temp", 2)) env::put((dest_name + "~").c_str(), "stale");
    if(cfg & 1) d.debug();
    if(cfg & 2) OK(capy_document_properties_set_pdfx, d.dp, CAPY_PDFX_3_2003), env::put("/m/rgb.icc", icc_rgb()), (void)OK(capy_document_properties_set_device_profile, d.dp, CAPY_DEVICE_CS_RGB, "/m/rgb.icc"), OK(capy_document_properties_set_output_intent, d.dp, "sRGB", -1);
    d.open();
    DC *dc = d.page();
    OK(capy_dc_cmd_re, dc, 1, 2, 3, 4);
    OK(capy_dc_cmd_f, dc);
    embed(d, "att.txt", "contents");
    OK(capy_dc_cmd_Do_trgroup, dc, trgroup(d));
    d.add(dc);
    env::E->ops.clear();
    env::E->opno = 0;
    env::E->faults = true;
    env::E->fail_at = capysym_range("fail_at", -1, 200);
    env::E->fail_mode = capysym_choice("fail_mode", 2);
    env::E->on_op = crash_point;
    int rc = capy_generator_write(d.g);
    env::E->on_op = nullptr;
    crash_point('e');
    bool faulted = false;
    for(auto &o : env::E->ops) if(!o.ok) faulted = true;
    if(rc == 0) {
        C(env::E->renames == 1, "success-without-replacement");
        C(!faulted, "failure-reported-as-success");
        C(env::E->rename_src_ever_synced && env::E->rename_src_synced == env::E->rename_content, "replaced-before-fsync");
        C(env::E->rename_open_writers == 0, "replaced-while-open");
        d.parse();
        C(d.out.pages().size() == 1, "complete-document");
        // only the destination changed
        for(auto &f : env::E->files) if(f.exists && f.name != dest_name) C(f.name == "/m/rgb.icc" || f.name[0] == 1, "stray-file");
        capysym_reach("written");
    } else {
        C(env::E->renames == 0, "failure-after-replacement");
        C(faulted, "spurious-failure");
        capysym_reach("failed");
        if(env::E->ops.size() && env::E->ops.back().kind == 'r') capysym_reach("rename-failed");
    }
    capysym_log("crash-points", crash_points);
}
