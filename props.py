COMMON_ASSUMPTIONS = [
    "clang 18 -O1 IR of the current /repo sources stands for the program; native replay uses g++ with AddressSanitizer",
    "the file system, clock and entropy source are the models in harness/env.cpp",
]
PROPS = {
 "C01": {"harnesses": [{"name": "one", "src": "h_container.cpp", "defs": ["ONE"], "reach": ["done"]}]},
  "C02": {"harnesses": [{"name": "strings", "src": "h_strings.cpp", "defs": ["NB=3"], "reach": []},
                       {"name": "nonbmp", "src": "h_strings.cpp", "defs": ["NB=4", "NONBMP"], "reach": []},
                       {"name": "debug", "src": "h_strings.cpp", "defs": ["NB=2", "DEBUGOUT"], "reach": []},
                       {"name": "debug3", "src": "h_strings.cpp", "defs": ["NB=3", "DEBUGOUT"], "thorough_only": True, "reach": []}]},
  "C03": {"harnesses": [{"name": "accept", "src": "h_accept.cpp", "defs": ["NB=3"], "reach": []},
                       {"name": "long", "src": "h_accept_long.cpp", "defs_quick": ["NB=6"], "defs_thorough": ["NB=7"], "reach": ["valid", "invalid"]}]},
  "C07": {"harnesses": [{"name": "atomic", "src": "h_atomic.cpp", "defs": [], "reach": ["written", "failed", "rename-failed"]}]},
  "C04": {"harnesses": [{"name": "ops", "src": "h_content.cpp", "defs": ["OPS1"], "reach": ["accepted", "rejected"]},
                       {"name": "nest", "src": "h_content.cpp", "defs_quick": ["LEN=3"], "defs_thorough": ["LEN=5"], "reach": ["balanced", "unbalanced"]}]},
  "C06": {"harnesses": [{"name": "ids", "src": "h_ids.cpp", "defs": [], "reach": ["accepted", "rejected"]}]},
  "C08": {"harnesses": [{"name": "enums", "src": "h_enums.cpp", "defs": [], "reach": ["accepted", "rejected"]}]},
 "C19": {"harnesses": [{"name": "tree", "src": "h_outline.cpp", "defs_quick": ["TREE=4"], "defs_thorough": ["TREE=5"], "reach": ["done"]},
                       {"name": "dest", "src": "h_outline.cpp", "defs": [], "reach": ["accepted", "rejected"]}]},
 "C20": {"harnesses": [{"name": n, "src": "h_pages.cpp", "defs": ["PART=%d" % i], "reach": [n]} for i, n in enumerate(["boxes", "annots", "labels", "transitions", "viewports", "navigation", "order"])]},
 "C18": {"harnesses": [{"name": "structure", "src": "h_struct.cpp", "defs_quick": ["NITEM=3"], "defs_thorough": ["NITEM=4"], "reach": ["done"]}]},
 "C24": {"harnesses": [{"name": "resources", "src": "h_res.cpp", "defs": [], "reach": ["done"]}]},
 "C21": {"harnesses": [{"name": "lifecycle", "src": "h_lifecycle.cpp", "defs": [], "reach": ["done"]}]},
 "C26": {"harnesses": [{"name": n, "src": "h_gs.cpp", "defs": ["PART=%d" % i], "reach": [n]} for i, n in enumerate(["gstate", "functions", "shadings", "spaces"])]},
 "C17": {"harnesses": [{"name": n, "src": "h_mesh.cpp", "defs": ["PART=%d" % i], "reach": ["decoded"]} for i, n in enumerate(["sequences", "coordinates", "components", "mismatch"])]},
 "C22": {"harnesses": [{"name": n, "src": "h_embed.cpp", "defs": ["PART=%d" % i], "reach": [n]} for i, n in enumerate(["files", "collection"])]},
 "C23": {"harnesses": [{"name": n, "src": "h_meta.cpp", "defs": ["PART=%d" % i], "reach": ["written"]} for i, n in enumerate(["conformance", "texts"])]},
 "C14": {"harnesses": [{"name": n, "src": "h_image.cpp", "defs": ["PART=%d" % i], "reach": [n, "refused"]} for i, n in enumerate(["samples", "rules"])]},
 "C15": {"harnesses": [{"name": n, "src": "h_imgfile.cpp", "defs": ["PART=%d" % i], "reach": ["loaded", "refused"]} for i, n in enumerate(["png", "palette", "tiff", "jpeg", "detection"])]},
 "C16": {"harnesses": [{"name": n, "src": "h_color.cpp", "defs": ["PART=%d" % i], "reach": r} for i, (n, r) in enumerate([("convert", ["converted", "refused"]), ("unconvertible", ["refused"]), ("profiles", ["done"]), ("device", ["done", "refused"])])]},
 "C11": {"harnesses": [{"name": n, "src": "h_ttsub.cpp", "defs": ["PART=%d" % i], "reach": [n]} for i, n in enumerate(["glyphs", "components", "layout", "variable"])]},
 "C13": {"harnesses": [{"name": n, "src": "h_text.cpp", "defs_quick": ["PART=%d" % i, "LEN=2"], "defs_thorough": ["PART=%d" % i, "LEN=3"], "reach": r} for i, (n, r) in enumerate([("strings", ["strings", "refused"]), ("sequences", ["sequences"]), ("fonts", ["fonts"]), ("widths", ["widths", "refused"]), ("unusual", ["unusual"])])]},
 "C09": {"deadline_quick": 720, "harnesses": [{"name": n, "src": "h_fontfile.cpp", "defs": ["PART=%d" % i, "LOCA=1"], "reach": ["used", "refused"]} for i, n in enumerate(["fields", "cut", "counts", "composites", "ids"])]},
 "C12": {"harnesses": [{"name": n, "src": "h_cff.cpp", "defs": ["PART=%d" % i], "reach": [n]} for i, n in enumerate(["glyphs", "numbers", "dictionaries"])]},
}
