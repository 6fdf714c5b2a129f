// C23: document information, XMP metadata, output intent and conformance marks are those set.
#include "features.hpp"
#include "content.hpp"
#include "channels.hpp"
typedef const pdf::Obj *O;
static D *d;
static O G(O o, const char *k) { return d->out.get(o, k); }
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static const char *PDFX[12] = {"PDF/X-1:2001", "PDF/X-1a:2001", "PDF/X-1a:2003", "PDF/X-3:2002", "PDF/X-3:2003", "PDF/X-4", "PDF/X-4p", "PDF/X-5g", "PDF/X-5pg", "PDF/X-6", "PDF/X-6p", "PDF/X-6n"};
static const char *PDFA[10] = {"1A", "1B", "2A", "2B", "2U", "3A", "3B", "3U", "4F", "4E"};
struct El { std::string path, text; };
// A strict reader for the XML subset XMP packets use: returns the text of every element.
struct Xml {
    std::string s; size_t p = 0; std::vector<El> out; std::vector<std::string> st; std::vector<std::string> ns; const char *err = nullptr;
    bool fail(const char *m) { if(!err) err = m; return false; }
    bool lit(const char *t) { size_t n = strlen(t); if(s.size() - p >= n && memcmp(s.data() + p, t, n) == 0) { p += n; return true; } return false; }
    static bool namech(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == ':' || c == '_' || c == '-' || c == '.'; }
    std::string nm() { std::string r; while(p < s.size() && namech(s[p])) r += s[p++]; return r; }
    bool ch(std::string &t, char q) {
        unsigned char c = s[p];
        if(c == '&') {
            p++;
            if(lit("lt;")) t += '<'; else if(lit("gt;")) t += '>'; else if(lit("amp;")) t += '&'; else if(lit("quot;")) t += '"'; else if(lit("apos;")) t += '\'';
            else if(lit("#13;") || lit("#xD;") || lit("#xd;")) t += '\r'; else return fail("xml-reference");
            return true;
        }
        if(c == '<') return fail("xml-lt");
        if(c == '>' && p >= 2 && s[p - 1] == ']' && s[p - 2] == ']') return fail("xml-cdata-end");
        if(c < 32 && c != 9 && c != 10 && c != 13) return fail("xml-control-character");
        p++;
        if(c == '\r') { if(p < s.size() && s[p] == '\n') p++; t += '\n'; } else t += (char)c;
        return true;
    }
    bool tag() {
        if(lit("<?")) { while(p + 1 < s.size() && !(s[p] == '?' && s[p + 1] == '>')) p++; if(p + 1 >= s.size()) return fail("xml-pi"); p += 2; return true; }
        if(lit("</")) { std::string n = nm(); if(st.empty() || st.back() != n) return fail("xml-nesting"); st.pop_back(); out.push_back({"/", ""}); if(p >= s.size() || s[p++] != '>') return fail("xml-tag"); return true; }
        p++;
        std::string n = nm();
        if(n.empty()) return fail("xml-tag");
        for(;;) {
            bool sp = false;
            while(p < s.size() && (s[p] == ' ' || s[p] == '\n')) { p++; sp = true; }
            if(p >= s.size()) return fail("xml-tag");
            if(lit("/>")) { return true; }
            if(s[p] == '>') { p++; break; }
            if(!sp) return fail("xml-attribute");
            std::string a = nm(), v;
            if(a.empty() || !lit("=\"")) return fail("xml-attribute");
            while(p < s.size() && s[p] != '"') if(!ch(v, '"')) return false;
            if(p >= s.size()) return fail("xml-attribute");
            p++;
            if(a.compare(0, 6, "xmlns:") == 0) ns.push_back(a.substr(6));
        }
        size_t c = n.find(':');
        if(c != std::string::npos) { bool known = false; for(auto &x : ns) if(n.compare(0, c, x) == 0) known = true; if(!known) return fail("xml-namespace"); }
        st.push_back(n);
        out.push_back({n, ""});
        return true;
    }
    bool parse() {
        size_t cur = 0;
        while(p < s.size()) {
            if(s[p] == '<') { size_t n0 = out.size(); if(!tag()) return false; if(out.size() > n0) cur = out.size() - 1; }
            else { std::string t; if(!ch(t, 0)) return false; if(!st.empty() && cur < out.size()) out[cur].text += t; else if(t != "\n" && t != " ") return fail("xml-text"); }
        }
        return st.empty() || fail("xml-unclosed");
    }
    const std::string *one(const char *name, const char *label) { const std::string *r = nullptr; for(auto &e : out) if(e.path == name) { C(!r, label); r = &e.text; } return r; }
};
static void text(O dict, const char *key, const std::string &v, const char *label) {
    O o = dict ? G(dict, key) : nullptr;
    if(v.empty()) { C(!o, label); return; }
    std::string t; C(o && o->k == pdf::Str && text_string(o->s, t) && same(t, v), label);
}
static std::string ICC[3];
extern "C" void harness(void) {
    D dd; d = &dd;
    int sub, cs = 0, prof = 1, ident = 1, xml = 0, when = 0, mask = 0, tagged = 0, late = 0;
    std::string title, author, creator, lang, id = "sRGB \xc3\xa9", rdf;
#if PART == 0
    sub = capysym_choice("subtype", 23); cs = capysym_choice("colorspace", 3); prof = capysym_choice("profile", 2); ident = capysym_choice("identifier", 2); xml = sub == 0 ? ident : 0; when = sub % 4; tagged = sub & 1;
    creator = "me";
#else
    static const int SUBS[5] = {0, 6, 14, 21, 22};
    sub = SUBS[capysym_choice("subtype", 5)]; mask = capysym_choice("fields", 9); xml = capysym_choice("xml", 2); late = capysym_choice("late", 2);
    auto val = [&](int bit, const char *fixed, bool ascii) { if(mask == bit) return "a" + symchars(2, "text", ascii ? 32 : 1, 126); return std::string(mask == 8 || (mask == 7 && bit % 2) ? fixed : ""); };
    title = val(0, "T\xc3\xa4 <&>", false); author = val(1, "A (b)", false); creator = val(2, "C \xe2\x82\xac & ]]> <x>", false); lang = val(3, "fi-FI", true); id = mask == 4 ? "a" + symchars(2, "text", 1, 126) : "cond";
    if(mask == 5) { creator = "]" + symchars(2, "text", 60, 93); }
#endif
    if(xml) { rdf = "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><pdf:Producer>CapyPDF</pdf:Producer>\r\n "; if(mask == 6) rdf += symchars(2, "text", 1, 126); rdf += "</x:xmpmeta>"; }
    static const char *EPOCH[4] = {nullptr, "0", "951782399", "4102444800"}, *DATE[4] = {"D:20231114221320Z", "D:19700101000000Z", "D:20000228235959Z", "D:21000101000000Z"};
    if(EPOCH[when]) setenv("SOURCE_DATE_EPOCH", EPOCH[when], 1); else unsetenv("SOURCE_DATE_EPOCH");
    auto *dp = d->dp;
    auto set = [&](const char *w) {
        auto S = [&](CapyPDF_EC (*f)(CapyPDF_DocumentProperties *, const char *, int32_t), const std::string &v) { if(w) OK(f, dp, w, -1); else if(!v.empty()) OK(f, dp, v.data(), (int)v.size()); };
        S(capy_document_properties_set_title, title); S(capy_document_properties_set_author, author); S(capy_document_properties_set_creator, creator); S(capy_document_properties_set_language, lang);
        if(w || ident) S(capy_document_properties_set_output_intent, id);
    };
    set(nullptr);
    if(xml) { C(capy_document_properties_set_metadata_xml(dp, "<a>no producer</a>", -1) != 0, "verdict:metadata-producer"); OK(capy_document_properties_set_metadata_xml, dp, rdf.data(), (int)rdf.size()); }
    OK(capy_document_properties_set_colorspace, dp, (CapyPDF_Device_Colorspace)cs);
    OK(capy_document_properties_set_tagged, dp, tagged);
    if(sub >= 13) OK(capy_document_properties_set_pdfa, dp, (CapyPDF_PDFA_Type)(sub - 13)); else if(sub) OK(capy_document_properties_set_pdfx, dp, (CapyPDF_PDFX_Type)(sub - 1));
    ICC[0] = icc_rgb(); ICC[1] = icc_gray(); ICC[2] = icc_cmyk();
    static const char *PN[3] = {"/m/p0", "/m/p1", "/m/p2"};
    for(int i = 0; i < 3; i++) { env::put(PN[i], ICC[i]); if(prof || i != cs) OK(capy_document_properties_set_device_profile, dp, (CapyPDF_Device_Colorspace)i, PN[i]); }
    int rc = capy_generator_new(d->fname.c_str(), dp, &d->g);
    C((rc == 0) == (sub == 0 ? cs != 2 || prof : prof && ident), "verdict:generator");
    if(rc) { capysym_reach("refused"); return; }
    if(late) { set("later"); OK(capy_document_properties_set_tagged, dp, !tagged); OK(capy_document_properties_set_colorspace, dp, CAPY_DEVICE_CS_GRAY); OK(capy_document_properties_set_pdfx, dp, CAPY_PDFX_1_2001); OK(capy_document_properties_destroy, dp); }
    d->add(d->page());
    d->finish();
    pdf::Doc &o = d->out;
    O tr = &o.trailer, cat = o.get(tr, "Root"), info = o.get(tr, "Info");
    std::string head = env::find(d->fname.c_str())->data.substr(0, 8);
    if(sub >= 1 && sub <= 12) C(sub <= 5 ? head == "%PDF-1.3" || head == "%PDF-1.4" : sub <= 9 ? head == "%PDF-1.6" : head == "%PDF-2.0", "version");
    if(sub == 0 || sub >= 21) C(head == "%PDF-2.0", "version");
    O fid = tr->get("ID"); C(fid && fid->k == pdf::Array && fid->a.size() == 2 && fid->a[0].k == pdf::Str && fid->a[0].s.size() >= 16 && fid->a[0].s == fid->a[1].s, "file-identifier");
    if(sub >= 21) C(!info, "info");
    else {
        text(info, "Title", title, "info-title"); text(info, "Author", author, "info-author"); text(info, "Creator", creator, "info-creator");
        C(info && G(info, "Producer") && G(info, "Producer")->s.find("CapyPDF") == 0, "info-producer");
        for(const char *k : {"CreationDate", "ModDate"}) { O x = G(info, k); C(x && x->k == pdf::Str && x->s == DATE[when], "info-date"); }
        O x = G(info, "GTS_PDFXVersion"), t = G(info, "Trapped");
        if(sub >= 1 && sub <= 12) C(x && x->k == pdf::Str && x->s == PDFX[sub - 1] && t && (t->is("False") || t->is("True")), "info-pdfx"); else C(!x, "info-pdfx");
    }
    // catalog
    O lg = G(cat, "Lang"); C(lang.empty() ? !lg : lg && lg->k == pdf::Str && same(lg->s, lang), "language");
    O mi = G(cat, "MarkInfo"); C(tagged ? mi && G(mi, "Marked") && G(mi, "Marked")->k == pdf::Bool && G(mi, "Marked")->i : !mi, "mark-info");
    O oi = G(cat, "OutputIntents");
    if(sub == 0) C(!oi, "output-intent");
    else {
        C(oi && oi->k == pdf::Array && oi->a.size() == 1, "output-intent");
        O x = o.deref(&oi->a[0]); C(x->name_is("Type", "OutputIntent") && x->name_is("S", sub <= 12 ? "GTS_PDFX" : "GTS_PDFA1"), "output-intent-type");
        text(x, "OutputConditionIdentifier", id, "output-condition");
        O pr = x->get("DestOutputProfile"); C(pr && pr->k == pdf::Ref, "output-profile");
        C(content::is_num(*G(o.deref(pr), "N"), cs == 0 ? 3 : cs == 1 ? 1 : 4) && same(d->stream(pr, "output-profile"), ICC[cs]), "output-profile");
    }
    O md = cat->get("Metadata");
    if(!xml && sub < 13) { C(!md, "metadata"); capysym_reach("written"); return; }
    C(md && md->k == pdf::Ref, "metadata");
    O mo = o.deref(md); C(mo->name_is("Type", "Metadata") && mo->name_is("Subtype", "XML") && !mo->has("Filter"), "metadata");
    Xml x; x.s = d->stream(md, "metadata");
    if(xml) { C(same(x.s, rdf), "metadata-unaltered"); capysym_reach("written"); return; }
    bool ok = x.parse();
    C(ok, x.err ? x.err : "xml");
    const char *lv = PDFA[sub - 13];
    auto *part = x.one("pdfaid:part", "xmp-part"), *conf = x.one("pdfaid:conformance", "xmp-conformance"), *ct = x.one("xmp:CreatorTool", "xmp-creator"), *pr = x.one("pdf:Producer", "xmp-producer"), *rev = x.one("pdfaid:rev", "xmp-rev");
    C(part && part->size() == 1 && (*part)[0] == lv[0], "xmp-part");
    C(conf ? conf->size() == 1 && (*conf)[0] == lv[1] : lv[0] == '4', "xmp-conformance");
    if(rev) C(lv[0] == '4', "xmp-rev");
    C(pr && pr->find("CapyPDF") == 0, "xmp-producer");
    bool plain = true;
    for(unsigned char c : creator) if(c < 32 && c != 9 && c != 10 && c != 13) plain = false;
    C(creator.empty() ? !ct : ct && (!plain || same(*ct, creator)), "xmp-creator");
    capysym_reach("written");
}
