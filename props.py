"""The harnesses, and for each property the scenarios that decide it."""
HARNESSES = {
    "bus": {"mode": "mc", "sources": ["bus.cpp"]},
    "life": {"mode": "mc", "sources": ["life.cpp"]},
    "act": {"mode": "mc", "sources": ["act.cpp"]},
    "misc": {"mode": "seq", "sources": ["misc.cpp"]},
    "plug": {"mode": "seq", "sources": ["plug.cpp"], "link": ["-Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose,--wrap=dlerror"]},
    "app": {"mode": "mc", "sources": ["app.cpp"], "repo_sources": [("src/main.cpp", ["-Dmain=app_main"]), ("src/lamppost/platformspecific/xnix/Xnix.cpp", [])],
            "link": ["-Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose,--wrap=dlerror,--wrap=sigaction,--wrap=signal"]},
    "link": {"mode": "mc", "sources": ["link.cpp"], "repo_sources": [("src/plugins/link/Link.cpp", ["-DCreateInstance=link_CreateInstance", "-DCreateInfo=link_CreateInfo"]),
                                                                     ("src/plugins/sysinfo/SysInfo.cpp", ["-DCreateInstance=sysinfo_CreateInstance", "-DCreateInfo=sysinfo_CreateInfo"])]},
    "data": {"mode": "seq", "sources": ["data.cpp"]},
    "engine": {"mode": "mc", "sources": ["engine.cpp"], "selftest": True},
    "conc": {"mode": "mc", "sources": ["conc.cpp"], "link": ["-Wl,--wrap=json_tokener_new,--wrap=json_tokener_new_ex,--wrap=json_tokener_free,--wrap=json_tokener_parse_ex,--wrap=json_tokener_reset"]},
}

# check.py --selftest: programs with known outcomes, explored by the engine
SELFTEST = {
    "store_buffering": {"0,1", "1,0", "1,1"}, "lost_update": {"2", "3", "4"}, "three_orders": {"0,1,2", "0,2,1", "1,0,2", "1,2,0", "2,0,1", "2,1,0"},
    "message_passing": {"1", "5"}, "message_passing_relaxed": "data-race", "plain_race": "data-race", "lock_order": "deadlock", "lost_notify": "deadlock",
    "notify": {"1"}, "spurious": {"0", "1", "2"}, "timed_condition": {"1,5", "0,15"}, "timed_mutex": {"1"}, "shared_timed": {"5"}, "futures": {"7,0", "7,1"},
    "once": {"1"}, "semaphores": {"4,1,1", "4,0,1"}, "semaphore_stuck": "deadlock", "spin_locks": {"2,0", "1,1"}, "no_reuse": {"0,0"}, "reuse": {"1,1"}, "clocks": {"2000,1,1"},
    "freed": "use-after-free", "dead_mutex": "use-after-free", "spinning": {"1"}, "early": {"0", "1", "2"},
}

SC = "every interleaving of the scenario's threads is explored up to the stated preemption bound; accesses are sequentially consistent and every pair of unordered conflicting accesses is reported as a data race, so weaker memory orders cannot add behaviour to a run that passes"
SMALL = "scenario sizes (threads, messages, buses) are the small ones listed in the evidence"
LIBS = "plugin libraries and the dynamic loader are stand-ins with the documented behaviour"
ZMQ = "ZMQ is a stand-in with the documented behaviour that loses no message"
BOUND = "the sizes enumerated are those listed in the evidence; behaviour beyond them is not decided"

PROPS = {
    "P01": {"parts": [{"harness": "bus", "scenarios": ["deliver_tree", "deliver_fanout", "deliver_late_subscriber", "deliver_late_child", "deliver_neighbours", "deliver_before_start", "deliver_burst_small", "deliver_burst_large", "deliver_wide", "deliver_sizes", "deliver_sequences4", "deliver_sequences5", "deliver_equal", "deliver_churn"], "thorough": ["deliver_equal_sequences", "deliver_churn6"]}, {"harness": "conc", "scenarios": ["roots_traffic"]}], "assumptions": [SC, SMALL]},
    "P02": {"parts": [{"harness": "bus", "scenarios": ["order_two_publishers", "order_shared_publisher", "order_relay", "order_prompt", "order_prompt_pair", "order_long", "order_prompt_wakeups", "order_two_publishers_wakeups", "order_clock"]}], "assumptions": [SC, SMALL]},
    "P03": {"parts": [{"harness": "bus", "scenarios": ["isolation", "isolation_message", "isolation_senders"]}], "assumptions": [SC, SMALL]},
    "P04": {"parts": [{"harness": "bus", "scenarios": ["unsub_race", "unsub_child", "unsub_foreign", "unsub_replace", "unsub_sizes", "deliver_neighbours", "unsub_churn", "unsub_race_reuse", "deliver_churn"]}], "assumptions": [SC, SMALL]},
    "P05": {"parts": [{"harness": "bus", "scenarios": ["delpub_race", "delpub_sequential", "delpub_cross", "delpub_sizes", "delpub_churn", "delpub_race_reuse", "deliver_churn"]}], "assumptions": [SC, SMALL]},
    "P06": {"parts": [{"harness": "life", "scenarios": ["stop_race", "stop_publish", "stop_twice", "stop_callback", "stop_child", "stop_start_child", "stop_cycles", "stop_sizes", "stop_clock", "stop_race_wakeups", "stop_publish_wakeups", "stop_cycles_wakeups"]}], "assumptions": [SC, SMALL]},
    "P07": {"parts": [{"harness": "life", "scenarios": ["name_race", "name_lookup", "name_sequences", "name_sizes"]}], "assumptions": [SC, SMALL]},
    "P08": {"parts": [{"harness": "life", "scenarios": ["detach_race", "detach_stopped", "detach_create", "destroy_publish", "destroy_running", "destroy_releases", "destroy_actions", "detach_sizes", "destroy_sizes"]}], "assumptions": [SC, SMALL]},
    "P09": {"parts": [{"harness": "life", "scenarios": ["reenter", "reenter_chain", "stop_callback"]}], "assumptions": [SC, SMALL]},
    "P11": {"parts": [{"harness": "act", "scenarios": ["rpc_shared", "rpc_consumers", "rpc_topics", "rpc_order", "rpc_two_providers", "rpc_nested", "rpc_content", "rpc_null", "rpc_many", "rpc_sizes", "rpc_similar", "rpc_history_reuse", "rpc_sizes_reuse"], "thorough": ["rpc_history", "rpc_history6"]}, {"harness": "conc", "scenarios": ["roots_actions"]}], "assumptions": [SC, SMALL]},
    "P12": {"parts": [{"harness": "act", "scenarios": ["req_answered", "req_timeout", "req_slow", "req_stopped", "req_sizes", "req_extremes", "req_growth", "req_clock", "req_timeout_wakeups", "req_answered_wakeups", "req_stopped_wakeups", "req_timeout_reuse"]}], "assumptions": [SC, SMALL]},
    "P13": {"parts": [{"harness": "act", "scenarios": ["bad_datagrams", "bad_ids"]}], "assumptions": [SC, SMALL]},
    "P15": {"parts": [{"harness": "act", "scenarios": ["reset_provider", "reset_self", "reset_twice", "reset_reuse"]}], "assumptions": [SC, SMALL]},
    "P10": {"parts": [{"harness": "misc", "scenarios": ["topics", "topics_long"]}, {"harness": "bus", "scenarios": ["deliver_topics"]}, {"harness": "conc", "scenarios": ["conc_topics"]}], "assumptions": [SC, BOUND]},
    "P14": {"parts": [{"harness": "misc", "scenarios": ["uuids", "uuid_bits"]}, {"harness": "act", "scenarios": ["ids_threads", "ids_requests"]}], "assumptions": [SC, "the entropy source yields different values for different calls"]},
    "P16": {"parts": [{"harness": "act", "scenarios": ["refused", "refused_leak"]}], "assumptions": [SC, SMALL]},
    "P17": {"parts": [{"harness": "act", "scenarios": ["growth", "growth_reuse"]}, {"harness": "link", "scenarios": ["link_growth"]}], "assumptions": [SC, SMALL, ZMQ]},
    "P20": {"parts": [{"harness": "data", "scenarios": ["ops", "ops_three", "ops_deep", "hidden", "hidden_held", "hidden_deep", "constructors", "sizes_ops", "values_ops"]}, {"harness": "conc", "scenarios": ["conc_trees"]}], "assumptions": [SC, BOUND]},
    "P21": {"parts": [{"harness": "data", "scenarios": ["copies", "self_copies", "sizes_copies", "values_copies"]}, {"harness": "conc", "scenarios": ["conc_copies"]}], "assumptions": [SC, BOUND]},
    "P22": {"parts": [{"harness": "data", "scenarios": ["equality", "equality_nested", "equality_history", "raw_level", "sizes_equality", "values_equality"]}, {"harness": "conc", "scenarios": ["conc_equality"]}], "assumptions": [SC, BOUND, "NaN and the sign of zero are left open"]},
    "P23": {"parts": [{"harness": "data", "scenarios": ["paths", "paths_history", "paths_deep", "sizes_paths", "values_paths"]}, {"harness": "conc", "scenarios": ["conc_paths"]}], "assumptions": [SC, BOUND]},
    "P24": {"parts": [{"harness": "data", "scenarios": ["wire", "wire_values", "wire_names", "wire_sizes", "wire_huge", "wire_leak", "sizes_wire", "values_wire"]}, {"harness": "conc", "scenarios": ["conc_wire"]}], "assumptions": [SC, BOUND]},
    "P25": {"parts": [{"harness": "data", "scenarios": ["hostile_truncated", "hostile_byte", "hostile_word", "hostile_two", "hostile_short", "hostile_repeat", "hostile_fields", "hostile_bomb", "hostile_shared"]}, {"harness": "conc", "scenarios": ["conc_hostile"]}], "assumptions": [SC, BOUND]},
    "P26": {"parts": [{"harness": "data", "scenarios": ["json_documents", "json_leaves", "json_truncated", "json_mutated", "json_strings", "json_deep", "json_leak", "sizes_json", "values_json"]}, {"harness": "conc", "scenarios": ["conc_json"]}], "assumptions": [SC, BOUND, "integers outside 32 bits, repeated keys and keys with NUL are left open"]},
    "P27": {"parts": [{"harness": "data", "scenarios": ["senders", "senders_history", "sizes_senders"]}, {"harness": "conc", "scenarios": ["conc_senders"]}], "assumptions": [SC, BOUND]},
    "P28": {"parts": [{"harness": "data", "scenarios": ["raw_bytes", "raw_bytes_self", "sizes_raw_bytes", "values_raw_bytes"]}, {"harness": "conc", "scenarios": ["conc_bytes"]}], "assumptions": [SC, BOUND]},
    "P29": {"parts": [{"harness": "misc", "scenarios": ["fs_listing", "fs_kinds", "fs_paths", "fs_many", "fs_long"]}, {"harness": "conc", "scenarios": ["conc_files"]}], "assumptions": [SC, BOUND]},
    "P31": {"parts": [{"harness": "data", "scenarios": ["printing", "printing_values", "sizes_printing", "values_printing"]}, {"harness": "conc", "scenarios": ["conc_printing"]}], "assumptions": [SC, BOUND]},
    "P30": {"parts": [{"harness": "misc", "scenarios": ["config_equality", "settings", "config_sizes"]}, {"harness": "conc", "scenarios": ["conc_configs"]}], "assumptions": [SC, BOUND]},
    "P40": {"parts": [{"harness": "plug", "scenarios": ["libraries", "libraries_three", "candidates"]}], "assumptions": [BOUND, LIBS]},
    "P41": {"parts": [{"harness": "plug", "scenarios": ["templates", "many_instances"]}, {"harness": "app", "scenarios": ["unload_traffic"]}], "assumptions": [BOUND, SC]},
    "P42": {"parts": [{"harness": "app", "scenarios": ["worker_sequences4", "worker_sequences5", "worker_destroy", "worker_stops", "worker_starts", "worker_pair", "worker_sleeps", "worker_stops_wakeups"]}], "assumptions": [SC, SMALL]},
    "P43": {"parts": [{"harness": "app", "scenarios": ["app_signal", "app_signal_twice", "app_signal_two", "app_signal_traffic", "app_stop", "app_wait", "app_traffic"]}], "assumptions": [SC, SMALL, LIBS]},
    "P44": {"parts": [{"harness": "plug", "scenarios": ["configs", "configs_three", "config_files", "many_entries"]}], "assumptions": [BOUND, LIBS]},
    "P45": {"parts": [{"harness": "link", "scenarios": ["link_out", "link_senders", "link_in", "link_pair", "link_pair_other", "link_action", "link_restart", "link_sizes"]}], "assumptions": [SC, SMALL, ZMQ]},
    "P46": {"parts": [{"harness": "link", "scenarios": ["link_bad", "link_truncated", "link_shutdown", "link_config", "link_faults"]}], "assumptions": [SC, SMALL, ZMQ]},
    "P47": {"parts": [{"harness": "link", "scenarios": ["sys_datagrams", "sys_send", "sys_down"]}], "assumptions": [SC, SMALL]},
    "P48": {"parts": [{"harness": "app", "scenarios": ["log_lines", "log_forms"]}], "assumptions": [SC, SMALL]},
}
