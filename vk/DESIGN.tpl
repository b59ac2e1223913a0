# Runtime monitoring of golems/amino

## How it works

* `vk/build.py` compiles the library straight from `/repo`'s working tree, out of tree, into
  `/verif/build/<flavour>` (ninja, incremental): `asan` = gcc AddressSanitizer + UBSan (+leak checking),
  `tsan` = ThreadSanitizer, `pyasan` = the shared library the Python bindings load. Nothing is written in `/repo`.
* `h/*.cpp` are the harnesses: workload generators plus monitors. `h/vk.hpp` is the framework: named sections,
  deterministic per-case seeds, exact-size heap buffers (so ASan sees a one-element overrun), canaries,
  event/distinct-state counters, a per-case CPU budget (non-termination is a violation).
  `h/reg.hpp` is the scratch-region monitor, `h/mats.hpp` and `h/tfref.hpp` are long-double reference models.
* Heap balance (`leakcheck` in `h/vk.hpp`): one case in ten is run again with the same seed, up to five times; bytes on the
  heap (the sanitizer's own count) that grow at every repeat are a leak, reported with the stacks that allocated them. It
  needs no unreachability, so it sees what LeakSanitizer cannot: blocks still pointed to from a region, a global or a cache.
  C06 judges it for every harness it runs, and the properties that promise freeing (C12, C13, C23, C24, C27 to C29) for
  their own. Exempt: the linearly constrained controller's context (the library has no function that destroys it), cases
  that are whole processes (C30), and the ThreadSanitizer builds.
* `vk/run.py PROP quick|thorough` rebuilds, runs the sections in parallel shards, collects monitor findings,
  sanitizer reports, crashes and hangs, removes listed known findings, writes `/verif/evidence/PROP.json`
  (what was observed: events judged, distinct situations, samples) and prints the verdict.
  `vk/run.py --replay FILE` re-runs the exact failing case.
* quick and thorough run the same monitors; thorough runs many times more cases and seeds.
* `vk/props_text.py` is the single source of `properties.jsonl` and `MANIFEST.json` (`python3 vk/props.py`).
* No hooks in `/repo` are needed: everything is observed through the public API and the sanitizers' interception,
  so refactorings cannot disturb a check.

Tolerances follow from the conditioning of each operation (stated beside each check in the harness), with a margin
of at least 100 over the largest error seen on the unchanged tree.

## Properties

See `properties.jsonl` for the statements, and "rule" in `vk/checks.py` for what counts as a distinct situation.

PROPS_TABLE

## Limits

* The Common Lisp bindings and the robot-description tools written in them cannot run here (no SBCL); they are out of
  reach of an executing monitor in this sandbox. There is no display either: the viewer runs on recording stand-ins for
  SDL, OpenGL and the 3D mouse (`h/fakegl.hpp`), so the property is what the library asks them to draw, not pixels.
* Held means held on the executions observed: random, hostile and stress workloads, not all inputs.

SEED_TABLE
