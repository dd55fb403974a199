# Writes MANIFEST.json. Run with python3-vt from anywhere.
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection: "
ENG = ("Seeded search, not a proof: it samples schedules, faults and inputs and reports nothing about those it did not draw. "
       "Trusts the generator, the reference model in sim/core and the cfg(tic_sim) hooks. ")
C = []
def c(pid, technique, note, built=True):
    C.append((pid, SIM + technique, ENG + note, built))

c("C01", "seeded collection schedules (when, how much growth, poisoned vacated memory, starting heap size) under generated programs and inputs, against a reference evaluator and the other engines",
  "Covers programs up to the generator's size (4000 nodes); both optimiser settings; interpret and interpret_main.")
c("C02", "seeded histories of allocations, root changes and collections on the real heap against a graph model, and long-running bounded-live programs with a heap bound checked after every collection",
  "The heap is driven through its own API via the hook; the bound constant is the one stated in DESIGN.md.")
c("C03", "generated programs building single values much larger than the heap at that moment, under seeded heap sizes and collection schedules, against a reference evaluator",
  "Sizes up to a few MB per value; memory exhaustion of the host is out of scope.")
c("C04", "seeded query histories over valid, damaged and random sources, each answer against a fresh unit asked only that question",
  "A crash is a violation; emitted code and evaluation are asked only of error-free sources.")
c("C05", "two simulated processes with different hash seeds and different earlier activity, all observable answers compared",
  "The hash seed seam is the getrandom call of the standard library, overridden in the harness.")
c("C06", "real threads under a seeded token-passing scheduler at hook points inside lookups, completion and collection, with deadlock detection, against each thread run alone",
  "Interleavings switch only at the hook points and at lock operations of the built-in library's lazily compiled modules.")
c("C07", "seeded pass orders and repetition counts through the optimiser seam with verification after every pass, results against a reference evaluator", "Passes run only as whole passes; their internals are explored through the programs.")
c("C08", "seeded lookup faults per import and time at the module resolver seam, against a by-construction model of the remaining program", "The resolver is the simulation's; the language server's and the command line tool's own resolvers are covered by C13 and C16.")
LSP = "The transport is a simulated channel and the file system is in memory; the documents' own text transformations bound the texts. "
c("C09", "seeded client sessions and file changes against the real language server over a simulated transport and file system, every document's last diagnostics against compiling the current texts from scratch", LSP + "Files change on disk only while open in the editor or before the server first reads them (the server does not watch files).")
c("C10", "seeded edit and query histories against the real language server, answers against a fresh compilation with an independent UTF-16 mapping, and against the text itself where it has no errors", LSP + "Positions inside a surrogate pair and lone carriage returns are left out.")
c("C11", "seeded message faults (malformed, unknown, repeated, misplaced messages) injected into sessions with the real language server, full consistency check after each", LSP + "Expressions are nested at most some hundred levels deep.")
c("C12", "seeded pipelining, disconnects and shutdowns at arbitrary points of sessions with the real language server, responses matched to requests", LSP)
c("C13", "seeded read faults per file, appearing and disappearing, at the language server's file system seam, diagnostics against compiling from scratch with the same faults", LSP)
PROC = "The binaries run as shipped, with libc's file calls behind a preloaded library; calls that bypass libc would escape it. "
c("C14", "seeded plans of failing system calls (open, read, write, stat, realpath; once or for good, at any call or byte) and small memory under the shipped ticc binary, exit status and result against a fault-free run and results known by construction", PROC + "Failures of close and of closed standard streams are left out: the standard library does not report them.")
c("C15", "seeded short and interrupted reads and writes, delays and wrong size hints at the system call boundary of the shipped ticc binary, everything observable against an undisturbed run", PROC + "Times printed by --time are ignored.")
c("C16", "seeded directory trees and import graphs with seeded spellings, links, cycles, damage and read faults under the shipped ticc binary, verdicts against a model of the import closure", PROC + "Import names that are absolute paths are left out.")
c("C17", "seeded trees of right and wrong cases, directory orders, hidden entry types and failing system calls under the shipped test runner, verdicts against the trees' construction", PROC + "The runner's directory of programs is mapped to a scratch directory.")
c("C21", "seeded splits, interruptions, delays and failures of the standard streams of the shipped ticc-lsp binary, and inputs that end at any byte or in garbage, outputs against an undisturbed session of the whole messages", PROC + "The process's threads are scheduled by the kernel, steered by delays of their reads and writes; the outcome must not depend on them.")
c("C22", "seeded crash points (before, within and after any system call) and failing calls under the shipped ticc binary, the whole directory afterwards against its earlier state and the undisturbed result", PROC + "A crash ends the process, not the machine: what was written before it stays.")
c("C23", "seeded sessions over seeded workspaces with missing and unreadable files, each repeated many times against the real language server, under an allocator that counts what is held after every repetition", LSP + "Growth is judged over 8 to 24 repetitions: held bytes or blocks that rise every time, or by more than 32 KB.")

c("C24", "seeded histories of library calls, each result kept and passed on, run under seeded heap sizes and collection schedules in the real engine, results against native models of what the functions promise", "Left open where names and types leave it: order of equal elements, numerals over 64 bits, a carriage return at the end of the last line, the first of two errors, ranges that run downwards.")
na = [
 ("C18", "A pure function of the program text: no schedule, time, I/O or fault for a simulator to control. Its consequences under collection schedules are decided with C01, C03 and C07."),
 ("C19", "A pure function of the input text with no nondeterminism, time or fault; simulation has nothing to vary."),
 ("C20", "A pure function of the document value with no nondeterminism, time or fault; simulation has nothing to vary."),
]
checks = []
for pid, t, n, built in C:
    if not built:
        na.append((pid, "The check for this property is still being built."))
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid}",
        "thorough_cmd": f"env VERIF_TIER=thorough ./check {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": t,
        "level": "exploration",
        "level_note": n.strip(),
    })
doc = {
 "version": 1,
 "setup_cmd": "./check --build",
 "hooks": {
  "guard": "cfg(tic_sim)",
  "enable": 'RUSTFLAGS="--cfg tic_sim" cargo build (the check script does this in /verif/target/sim)',
  "source_commits": ["e81394d", "3068f0d", "f2f77a4"],
 },
 "checks": checks,
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na)],
}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(doc, indent=1) + "\n")
