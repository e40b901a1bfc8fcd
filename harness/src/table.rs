table! {
    "set" set: h_set_real, h_set_any, h_set_agree, h_set_two;
    "query" query: h_query, h_strings, h_small, h_masks;
    "tables" tables: h_partition, h_lookup, h_published, h_asked, h_stable;
    "builder" builder: h_bounds, h_message, h_settings, h_latest, h_total, h_history, h_equal, h_equal_errors, h_equal_texts;
    "iter" iter: h_ends, h_whole, h_skip, h_nth, h_rest;
    "algebra" algebra: h_one, h_two, h_classes, h_iterate, h_steps, h_display, h_equal_values;
    "python" python: h_pyquery, h_pyversion, h_pyversions, h_pycategories, h_pygeneral, h_pymodule;
    "names" names: h_category, h_version, h_round_trip, h_order, h_general, h_equal_names;
}
