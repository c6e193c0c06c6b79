"""Per property: harness sources, build flags, budgets (cases, seconds)."""
import os

_STORE = ["store_manual.cpp", "store_queue.cpp", "store_safe_queue.cpp"]

_GRAPH = ["graph_ops.cpp", "graph_commit.cpp", "graph_d_int.cpp", "graph_d_p.cpp",
          "graph_d_rest.cpp", "graph_merge.cpp"]


def _graph(c, fuzz, **kw):
    return dict(src=[c + ".cpp"] + _GRAPH, quick=(300000, 20),
                thorough=(3000000, 300), fuzz=[(f, 60) for f in fuzz], **kw)


def _qt(*mods):
    d = "/usr/include/x86_64-linux-gnu/qt5"
    return ["-fPIC", "-isystem", d] + ["-isystem%s/Qt%s" % (d, m) for m in mods]


def _moc(header):
    def pre(out, repo, here):
        import subprocess
        src = os.path.join(here, "harness", header)
        dst = os.path.join(out, "moc_" + header.replace(".hpp", ".cpp"))
        subprocess.run(["moc", "-I" + repo, "-I" + os.path.join(here, "harness"),
                        "-I/usr/include/x86_64-linux-gnu/qt5", src, "-o", dst])
        return [dst]
    return pre


CHECKS = {
    "C01": dict(src=["c01.cpp"] + _STORE, quick=(400000, 20), thorough=(1500000, 240),
                fuzz=[("store_fold", 90)]),
    "C02": dict(src=["c02.cpp"] + _STORE, quick=(400000, 20), thorough=(1500000, 240),
                fuzz=[("store_effects", 90)]),
    "C03": dict(src=["c03.cpp"] + _STORE, quick=(400000, 20), thorough=(1500000, 240),
                fuzz=[("store_futures", 60), ("future_graph", 60)]),
    "C04": _graph("c04", ["isolated_writes", "overlapping_cursors"]),
    "C05": _graph("c05", ["derivations"]),
    "C06": _graph("c06", ["notifications", "deep_notifications"]),
    "C07": _graph("c07", ["consistency", "pending_from_watchers"]),
    "C08": _graph("c08", ["graph_cursors"]),
    "C09": dict(src=["c09.cpp"], quick=(400000, 20), thorough=(4000000, 300),
                fuzz=[("transactional_handles", 60), ("automatic_handles", 60)]),
    "C10": dict(src=["c10.cpp", "c10_chains.cpp", "c10_small.cpp", "c10_out.cpp", "c10_mid_a.cpp",
                     "c10_mid_p.cpp", "c10_mid_t.cpp", "c10_mid_fan.cpp"],
                quick=(800000, 15), thorough=(8000000, 200),
                fuzz=[("long_chains", 40), ("through_mid_t", 40)]),
    "C11": dict(src=["c11.cpp", "c11_opt.cpp", "c11_nested.cpp"],
                quick=(800000, 15), thorough=(8000000, 200),
                fuzz=[("nested", 40), ("sequences", 40)]),
    "C12": dict(src=["c12_lens.cpp", "c12_index.cpp", "c12_partial.cpp", "c12_keys.cpp", "c12.cpp",
                     "c12_mid.cpp", "c12_small.cpp", "c12_same.cpp"],
                quick=(600000, 15), thorough=(6000000, 240),
                variants=[dict(name="main", san="address")],
                fuzz=[("erased_deep", 40), ("by_key", 40)]),
    "C13": dict(src=["c13.cpp", "c13_cp.cpp", "c13_two_c.cpp", "c13_ci.cpp", "c13_two_r.cpp",
                     "c13_rp.cpp", "c13_ri.cpp", "c13_deep_cp.cpp", "c13_deep_ci.cpp",
                     "c13_deep_rp.cpp", "c13_deep_ri.cpp"],
                quick=(800000, 20), thorough=(8000000, 240),
                variants=[dict(name="main", san="address")],
                fuzz=[("transactional_chains", 60)]),
    "C14": dict(src=["c14.cpp", "c14_a.cpp", "c14_b.cpp", "c14_c.cpp", "c14_d.cpp"],
                quick=(600000, 20), thorough=(6000000, 240),
                variants=[dict(name="main", san="address")],
                fuzz=[("dependency_walks", 60)]),
    "C15": dict(src=["c15.cpp", "c15_a.cpp", "c15_b.cpp", "c15_c.cpp", "c15_d.cpp"],
                quick=(600000, 20), thorough=(6000000, 240),
                variants=[dict(name="main", san="address")],
                fuzz=[("context_walks", 40), ("nested_reducers", 40)]),
    "C16": dict(src=["loops.cpp"], quick=(600000, 20), thorough=(2000000, 240),
                fuzz=[("queue_loop", 40), ("safe_queue_loop_remote", 40)]),
    # interleavings: the sanitizer for races, and the checks on what was observed
    "C17": dict(src=["c17.cpp", "c17_asio.cpp", "c17_qt.cpp", "c17_sched.cpp"],
                flags=_qt("Core", "Concurrent"), libs=["-lQt5Core", "-lQt5Concurrent"],
                quick=(100000, 25), thorough=(3000000, 240),
                variants=[dict(name="main", san="asan"),
                          dict(name="races", san="tsan", src=["c17.cpp", "c17_asio.cpp", "c17_sched.cpp"],
                               flags=["-Wno-tsan"], libs=[])]),
    "C18": dict(src=["c18.cpp", "c18_long.cpp"], quick=(400000, 20), thorough=(4000000, 240),
                variants=[dict(name="main", san="address")],
                fuzz=[("histories", 60)]),
    "C19": dict(src=["c19.cpp", "c19_long.cpp"], quick=(400000, 20), thorough=(4000000, 240),
                variants=[dict(name="main", san="address")],
                fuzz=[("tree_histories", 60)]),
    "C20": dict(src=["c20.cpp", "c20_server.cpp"], quick=(20000, 30), thorough=(400000, 240),
                variants=[dict(name="main", san="asan"),
                          dict(name="races", san="tsan")],
                libs=["-lpthread"], cxx="g++", fuzz=[]),
    "C21": dict(src=["c21_%s.cpp" % x for x in "abcdefghi"] + ["c21_optional.cpp"],
                # what a load leaves uninitialised shows as odd values
                flags=["-ftrivial-auto-var-init=pattern"],
                quick=(200000, 20), thorough=(2000000, 240),
                variants=[dict(name="main", san="address")],
                fuzz=[("nested_sequences", 30), ("variants", 30)]),
    "C22": dict(src=["c22_%s.cpp" % x for x in "abcdefg"],
                flags=["-ftrivial-auto-var-init=pattern"],
                quick=(300000, 20), thorough=(4000000, 240),
                fuzz=[("mutated_keyed", 30), ("garbled_variants", 30),
                      ("garbled_structs", 30)]),
    "C23": dict(src=["c23.cpp", "c23_big.cpp", "c23_tpl.cpp"],
                quick=(200000, 15), thorough=(2000000, 120),
                fuzz=[("plain_equality", 30), ("template_equality", 30)]),
    "C24": dict(src=["c24.cpp"], quick=(200000, 15), thorough=(2000000, 120),
                fuzz=[("enum_names", 60), ("enum_values", 30)]),
    "C25": dict(src=["c25.cpp"], quick=(400000, 20), thorough=(4000000, 200),
                fuzz=[("setters", 60)]),
    "C26": dict(src=["c26.cpp", "c26_own.cpp", "c26_same.cpp", "c26_0.cpp", "c26_1.cpp", "c26_2.cpp", "c26_3.cpp"],
                quick=(400000, 20), thorough=(4000000, 200),
                fuzz=[("mixed_roots", 60)]),
    "C27": dict(src=["c27.cpp", "c27_a.cpp", "c27_b.cpp", "c27_c.cpp", "c27_d.cpp"],
                quick=(400000, 20), thorough=(4000000, 200),
                variants=[dict(name="main", san="address")],
                fuzz=[("thunks", 60)]),
    "C28": dict(src=["c28_asio.cpp", "c28_qt.cpp", "c28_qml.cpp", "c28_sdl.cpp"],
                flags=_qt("Core", "Gui", "Concurrent", "Quick", "Qml", "Network")
                + ["-isystem/usr/include/SDL2"],
                libs=["-lQt5Quick", "-lQt5Qml", "-lQt5Gui", "-lQt5Concurrent", "-lQt5Core",
                      "-lSDL2"],
                quick=(60000, 30), thorough=(600000, 240)),
    "C29": dict(src=["c29.cpp", "c29_three.cpp", "c29_two_a.cpp", "c29_two_b.cpp",
                     "c29_two_c.cpp", "c29_two_d.cpp"],
                quick=(400000, 10), thorough=(4000000, 60),
                fuzz=[("one_variant", 30)]),
    "C30": dict(src=["c30.cpp"], pre=_moc("c30_objects.hpp"), flags=_qt("Core"),
                libs=["-lQt5Core"], quick=(200000, 20), thorough=(2000000, 200),
                fuzz=[("properties", 30)]),
    # the same library configured without exceptions
    "C31": dict(src=["c31.cpp", "c11.cpp", "c11_opt.cpp", "c11_nested.cpp", "c12_index.cpp",
                     "c12_keys.cpp"],
                flags=["-DLAGER_NO_EXCEPTIONS"],
                quick=(600000, 15), thorough=(6000000, 200),
                variants=[dict(name="main", san="address")],
                fuzz=[("key_types", 30), ("nested", 30)]),
    "C32": dict(src=["c32.cpp"], quick=(300000, 20), thorough=(3000000, 240),
                fuzz=[("exceptions", 60)]),
    "C33": dict(src=["c33.cpp", "c33_store.cpp"], quick=(300000, 20), thorough=(3000000, 240),
                fuzz=[("kept_by_graphs", 60), ("kept_by_stores", 60)]),
}
NOT_APPLICABLE = {}
