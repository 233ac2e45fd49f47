#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T1 = ("The only end-to-end program under test runs the benchmark with one fixed set of sizes on 2 and 4 ranks of one node; "
      "the other tests run one code-generation stage each on one fixed input. ")
INIT = {"name": "schedule generation and compilation pipeline", "where": "src/mpi/ext_mpi_native.c"}
EXEC = {"name": "byte-code interpreter", "where": "src/mpi/ext_mpi_native_exec.c"}
IFACE = {"name": "persistent-request interface (MPI_*_init, Start, Wait*, Test*)", "where": "src/mpi/ext_mpi_interface.c"}
PARAM = {"name": "parameter selection", "where": "src/mpi/ext_mpi.c"}
COPY = {"name": "in-node reduction and distribution of data", "where": "src/core/reduce_copyin.c, src/core/reduce_copyout.c"}
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, technique=None, note=None, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state, technique=technique, note=note, na=na, hook=hook))


SIMNOTE = ("Bounded random search: %s. Runs the library compiled from /repo on a deterministic stand-in for MPI and shared memory, so "
           "absence of a failing case is evidence and not proof. Trusts the stand-in, the reference results and Hypothesis.")
SIMTECH = "property-based testing (Hypothesis) of whole-library runs on a deterministic MPI simulator"

prop("P01", "Persistent allreduce delivers the exact sum on every rank",
     "After every completed start of a persistent allreduce, every rank's receive buffer holds the element-wise sum of the data all ranks "
     "had in their send buffers at that start. This holds for every communicator size and placement of ranks on nodes, every count including "
     "zero, every supported type, and for the in-place form.",
     ["inputs", "configurations", "schedules"],
     "All communicator sizes, node layouts (equal and unequal), counts, types, in place or not, and interleavings of ranks.",
     T1 + "Most layouts, counts that do not divide evenly, unequal nodes and interleavings are never run.",
     ["src/mpi/ext_mpi.c", "src/mpi/ext_mpi_native.c", "src/core/allreduce.c", "src/core/allreduce_recursive.c", "src/core/reduce_copyin.c",
      "src/core/reduce_copyout.c", "src/core/raw_code.c"],
     [INIT, EXEC, COPY, {"name": "cyclic and recursive schedules", "where": "src/core/allreduce.c, src/core/allreduce_recursive.c"}],
     ["receive buffers of every rank after completion"], technique=SIMTECH,
     note=SIMNOTE % "up to 10 (quick) or 14 (thorough) ranks, counts up to a few thousand and single ones up to tens of megabytes, integer-valued data so that sums are exact")
prop("P02", "Persistent allgather and allgatherv deliver every rank's block in order",
     "After every completed start of a persistent allgather or allgatherv, every rank's receive buffer holds the concatenation, in rank order, "
     "of the blocks all ranks had in their send buffers at that start, with each block of an allgatherv at the displacement given for it. "
     "Blocks may have different lengths, including zero, and any contiguous element type.",
     ["inputs", "configurations", "schedules"], "All communicator sizes, node layouts, count vectors, element types and interleavings of ranks.",
     T1 + "Vectors of unequal or empty blocks on several nodes are never run.",
     ["src/mpi/ext_mpi.c", "src/mpi/ext_mpi_native.c", "src/core/allreduce.c", "src/core/rank_permutation.c", "src/core/reduce_copyout.c"],
     [INIT, EXEC, COPY, {"name": "rank reordering for unequal blocks", "where": "src/core/rank_permutation.c"}],
     ["receive buffers of every rank after completion"], technique=SIMTECH,
     note=SIMNOTE % "up to 10 (quick) or 14 (thorough) ranks, blocks up to 700 elements, contiguous displacements")
prop("P03", "Persistent reduce_scatter delivers each rank its block of the sum",
     "After every completed start of a persistent reduce_scatter or reduce_scatter_block, every rank's receive buffer holds exactly its own block "
     "of the element-wise sum of all send buffers at that start. Blocks may have different lengths, including zero.",
     ["inputs", "configurations", "schedules"], "All communicator sizes, node layouts, count vectors, types and interleavings of ranks.",
     T1 + "Unequal and empty blocks and more than one node are not run end to end.",
     ["src/mpi/ext_mpi.c", "src/mpi/ext_mpi_native.c", "src/core/allreduce.c", "src/core/rank_permutation.c", "src/core/reduce_copyin.c",
      "src/core/reduce_scatter_single_node.c"],
     [INIT, EXEC, COPY, {"name": "rank reordering for unequal blocks", "where": "src/core/rank_permutation.c"}],
     ["receive buffers of every rank after completion"], technique=SIMTECH,
     note=SIMNOTE % "up to 10 (quick) or 14 (thorough) ranks, blocks up to 700 elements")
prop("P04", "Persistent reduce and bcast are correct for every root",
     "After every completed start of a persistent reduce the root's receive buffer holds the element-wise sum of all send buffers; after every "
     "completed start of a persistent bcast every buffer holds what the root's buffer held at that start. This holds for every choice of root "
     "on every placement of ranks.",
     ["inputs", "configurations", "schedules"], "All communicator sizes, node layouts, roots, counts, types and interleavings of ranks.",
     T1 + "No test uses a root other than 0 on more than one node.",
     ["src/mpi/ext_mpi.c", "src/mpi/ext_mpi_native.c", "src/mpi/forward_interpreter.c", "src/mpi/backward_interpreter.c", "src/core/reduce_copyin.c",
      "src/core/reduce_copyout.c"],
     [INIT, EXEC, {"name": "pruning an allreduce schedule to what the root needs or provides",
                   "where": "src/mpi/forward_interpreter.c, src/mpi/backward_interpreter.c"}],
     ["receive buffers after completion"], technique=SIMTECH,
     note=SIMNOTE % "up to 10 (quick) or 14 (thorough) ranks, counts up to a few thousand and single ones up to tens of megabytes, every root")
prop("P05", "Persistent gather(v) and scatter(v) move every block to the right place",
     "After every completed start of a persistent gather or gatherv the root's receive buffer holds all ranks' blocks in rank order; after every "
     "completed start of a persistent scatter or scatterv each rank's receive buffer holds its own block of the root's send buffer. This holds for "
     "every root, displacement of the blocks, placement, block length including zero, and contiguous element type.",
     ["inputs", "configurations", "schedules"], "All communicator sizes, node layouts, roots, count vectors, types and interleavings.",
     T1 + "Gather and scatter with unequal blocks and non-zero roots on several nodes are not run.",
     ["src/mpi/ext_mpi.c", "src/mpi/ext_mpi_native.c", "src/mpi/forward_interpreter.c", "src/mpi/backward_interpreter.c", "src/core/reduce_copyin.c",
      "src/core/reduce_copyout.c"],
     [INIT, EXEC, COPY], ["receive buffers after completion"], technique=SIMTECH,
     note=SIMNOTE % "up to 10 (quick) or 14 (thorough) ranks, blocks up to 700 elements, contiguous displacements")
exec(open(os.path.join(V, "tools", "catalog_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "catalog_more.py")) else None


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=p["hook"])
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="sh /verif/tools/setup.sh", checks=[], not_applicable=[],
             notes="All checks are generated-input search; see DESIGN.md. known_findings.json lists repaired and recorded defects.")
    for p in P:
        if p["na"]:
            m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        else:
            m["checks"].append(dict(property=p["id"], quick_cmd="python3-vt /verif/pbt/check.py %s quick" % p["id"],
                                    thorough_cmd="python3-vt /verif/pbt/check.py %s thorough" % p["id"],
                                    evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
