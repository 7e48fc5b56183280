#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (only checks whose module exists are claimed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; "
T = {
    "C01": (TECH + "recorded operation sequences of the real clocks validated against it",
            "Exhaustive on small clocks for every operation sequence up to the bound; the real code is bound by exact (any-width integer) validation of recorded random sequences. Trusts the driver's rounding of shown times to microseconds."),
    "C02": (TECH + "recorded histories of the real particle list validated against it",
            "The storage scheme (slots, holes, high-water mark) is checked exhaustively, for every history within the bound, to refine the abstract list; the real container is bound by validating recorded histories (all observations after every operation)."),
    "C03": (TECH + "recorded chains of real interactions validated against it",
            "The candidate/outdated/perform cycle is explored exhaustively at small size; the real classes are bound by validating recorded chains of all interaction kinds that need no PYTHIA. String processes are not covered (PYTHIA is not installed)."),
    "C04": (TECH + "complete recorded histories of real runs validated against it",
            "The event loop (searching, ordering, discarding and executing candidate interactions, time steps, outputs) is explored exhaustively at small size; histories of real runs of a family of setups (box, sphere, collider; three criteria; ensembles; with and without time steps and grid) are validated event by event."),
    "C05": (TECH + "complete recorded histories of real runs and chains of single interactions validated against it",
            "Every recorded interaction of the run family and of randomly chained real interactions is validated; sums in fixed point (1e-6 GeV) with a tolerance for rounding. No string processes (no PYTHIA)."),
    "C06": (TECH + "block sequences of real output files validated against it",
            "Output loop explored exhaustively at small size; output files (5 formats) of random setups validated block by block."),
    "C07": (TECH + "what the real grid and search offer for random particle sets, and meetings in real runs, validated against it",
            "Cell scheme explored exhaustively for small cell numbers in both boundary modes; the real grid (both modes, limitations, strategies, unformed particles) and the real search validated for random particle sets, and all straight-line meetings of real sphere runs recomputed."),
    "C08": (TECH + "recorded wall crossings and flights of real box runs validated against it",
            "Crossing rule explored exhaustively on an integer lattice; the real finder, action and initial wrapping validated for random particles incl. walls, edges and corners, and every stretch of free motion in real box runs."),
    "C09": (TECH + "recorded visits, conversions and values of the real lattice validated against it",
            "Index arithmetic and visiting regions explored exhaustively for small lattices (both boundary modes); the real lattice validated for random sizes, origins, regions and operation sequences."),
    "C10": (TECH + "recorded operation sequences on real configuration objects, and all built-in keys and words, validated against it",
            "Tree operations explored exhaustively with numbered values (none lost, none doubled); real objects validated on random operation sequences; every documented key (default, state, range) and every accepted word of every enumeration compared with the specification's table, which was cross-checked against the user guide."),
    "C11": (TECH + "verdicts of the real validation on random inputs and runs of the program on good and bad inputs validated against it",
            "Verdict rule over the table of documented keys; random inputs (unknown, removed, misplaced, misspelt keys, maps) and complete program runs with directory snapshots."),
    "C13": (TECH + "files of all formats written by the real outputs, parsed block by block, validated against it",
            "Block grammar explored exhaustively over call histories and options; files of 5 text/binary formats, VTK and vHLLE for random events with all quantities, plus real runs where all formats are compared."),
    "C14": (TECH + "events handed out by the real list modus for random files, and by whole runs, validated against it",
            "Cutting files into events and moving on through files explored exhaustively for short files; the real reader validated in exact decimal arithmetic on random file sets (formats, optional columns, defects), on files written by the program itself, and in complete runs."),
    "C18": (TECH + "decays offered by the real finder, their final states, and the decays of complete runs validated against it",
            "Decay chains over several steps with forced decays at the end explored exhaustively for a small table; the real finder validated on random particles of a list with strong, electromagnetic and dilepton modes, and every decay and last particle of random runs. That decay times are exponential is not covered (probability)."),
    "C16": (TECH + "verdict, text, decimal form, order and quantum numbers of the real particle codes validated against it",
            "The numbering scheme is specified digit by digit and checked for self-consistency over its small-digit space; the real class validated on every code of the shipped lists, all 7-digit codes with small digits, nuclei, and random and malformed texts."),
    "C15": (TECH + "tables of types, multiplets and decay modes loaded by the real code from random and shipped lists validated against it",
            "Reading of both lists line by line as a state machine (exact rational isospin weights), explored for all short lists of small catalogues; real loading validated for random lists, a quarter to a half of them with one defect, and for all shipped lists."),
    "C19": (TECH + "crossings found by the real finder, and every stretch of every particle's life in real runs, validated against it",
            'Search interval by interval with interactions in between explored exhaustively on an integer light cone; the real finder validated for random particles, partitions of time and cuts in exact integer arithmetic, and the lives of all particles of collider runs (birth, record, interaction, end).'),
    "C25": (TECH + 'every initial state set up by the real modi (collider, custom nuclei, sphere, box) validated against what the specification prescribes for it',
            "Content, labels, common time, mass shell, positions (separation, impact parameter, reaction plane), velocities and total momentum of nuclei for every way to give the energy and every frame in exact integer arithmetic; state machine of the collider's set-up explored exhaustively on a small model."),
    "C24": (TECH + 'complete runs (events, ensembles, interactions, flags and ends in every output file) validated against it',
            'Counting explored exhaustively for small numbers of events, ensembles and all outcomes; random runs of nuclei, boxes, spheres and lists with fixed and minimum counts validated, with every particle followed through its ensemble.'),
    "C23": (TECH + 'digests of the files of repeated, re-configured, shortened and re-seeded runs validated against it',
            'What a run writes as a function of physics settings and seed: the generator discipline explored exhaustively on a small generator; 12 kinds of set-ups run repeatedly (again, from the recorded configuration, with parts of the outputs and other log levels, single events from their announced seed, with drawn seed).'),
    "C12": (TECH + 'Files.tla (processes writing into one directory: lock, record, temporary names, closing, renaming, failures, kills) model checked; file operations of real processes recorded by an LD_PRELOAD library are checked against it: kills before every operation, scheduled interleavings of two processes (all single and double switches, and behaviours generated from the model), failing runs, failing writes, obstacles, informative options; directory contents compared byte for byte with undisturbed runs',
            'files are observed at calls of the C library; pictures (VTK) and lattice tables are written in place and excluded from the temporary-name rule'),
    "C26": (TECH + 'Cli.tla (options read left to right, settings merged, verdict on the invocation) model checked for all short command lines; hundreds (thorough: thousands) of random invocations of the real program are validated against it: exit status, message, recorded configuration, lists and seed, results, and every file that changed anywhere',
            'levels of messages are not part of the record; lists are identified by their non-comment content'),
    "C21": (TECH + 'Cache.tla (processes sharing a directory of tabulations: lock, loading, writing, kills, damages, locks removed too early) model checked; file operations recorded by an LD_PRELOAD library and the integrals each process works with are validated against it: kills before every operation, random damages of every kind, stale files of other versions, particles and decay modes, full disks, scheduled interleavings (switches and behaviours generated from the model), and complete runs',
            'integrals compared bit by bit at 60 energies; small particle lists'),
    "C17": (TECH + 'Channels.tla (classes of reactions, switches, balance and thresholds of channels) model checked over a small table of types; the channels, weights and totals offered by the real code for random ordered pairs, energies and switch settings are validated against it, each pair also swapped and with part of the classes switched off',
            "three particle lists (the last with light nuclei in direct reactions); strings off (Pythia's part is exercised by other checks only); equal weights mean agreement to 1e-7 of the total"),
    "C22": (TECH + 'Pieces.tla (calls of the evolution with additions and removals in between, over the output loop; nothing lost or repeated, equal to one call) model checked; scripts of calls of the library interface are run on the real experiment and the recorded calls, files gained in each and messages validated against it; output files of split and unsplit events compared',
            'lists, spheres, boxes and nuclei; strings and potentials off; several ensembles only for splitting and refusals'),
    "C20": (TECH + 'Thermo.tla (how a particle is spread over the cells of a lattice, factors of density types, sums over particles) model checked for all placements on small lattices; dozens (thorough: hundreds) of random runs of the real program with thermodynamic output are validated against it: names and heads of all files, one block per output time, and every value of every cell of every format against sums over the particles in the particle output',
            'weights of Gaussian smearing come from the documented formula, evaluated by the recorder; no potentials, hence no forced lattices; Landau quantities only for types with one sign'),
}
NA = {
    "C30": "statement about continuous probability distributions; TLA+ has neither probabilities nor real numbers, an explicit-state specification cannot decide it",
    "C31": "statement about numerical accuracy of real-valued functions (integrals, parametrizations); no state or transition to specify, and TLC has no real arithmetic to serve as oracle",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in T and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}",
                           "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i} --thorough",
                           "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
        else:
            na.append({"property": i, "reason": NA.get(i, "not claimed yet: its check is still being built")})
    m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: every check observes the public interface, output files or processes. Specifications are TLA+ (spec/), checked with TLC."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
