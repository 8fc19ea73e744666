#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
D = "exhaustive enumeration of a bounded input/history space on the real code, every step compared with an independent reference model (explicit-state, stateless)"
N = {
 "C01": ("all 311,875,200 ordered five-card deals executed and compared with the rules", "Complete for the statement. Trusts the reference model (checked against a second, naive one) and rustc."),
 "C02": ("all pairs of the 7,462 strengths in all comparison forms, every five-card hand tied to its strength", "Complete over strengths for the comparison forms listed; trusts the reference model."),
 "C03": ("all 6- and 7-card hands, 8 cards up to suit renaming, bounded families up to 52 cards, against a direct best-hand reference", "Complete for 6 and 7 cards (thorough: 8); above that bounded families, not all sets."),
 "C04": ("every card list of length 0-4 and 5 (up to symmetry in quick), every single-duplicate placement to length 300", "Complete for lists up to 5 cards; long lists by placement families."),
 "C05": ("explicit enumeration of call histories over every way of making an evaluator, all orders of representative hands, all container kinds", "Bounded depth of histories and alphabets stated in the evidence."),
 "C06": ("stateless model checking of the compiled crate: every interleaving of 2-3 threads up to a preemption bound at every atomic, lock, once and blocking operation under a controlled scheduler", "Sequentially consistent interleavings at synchronisation operations only; data races on plain memory cannot be written in safe Rust (unsafe code is outside)."),
 "C07": ("all 5-, 6- and 7-card hands x suit renamings, executed pairwise", "Quick uses generators of the group of renamings for the largest sizes; thorough all 24."),
 "C08": ("all 52 cards, all 2,704 pairs, compile time and run time", "Complete."),
 "C09": ("all strings over bounded alphabets, every Unicode scalar value in every position, against a reference grammar", "Complete for strings of two characters in one coordinate over all of Unicode; bounded above."),
 "C10": ("all cards, ranks, suits x format requests, round trips", "Complete over cards; formatting options enumerated as listed."),
 "C11": ("explicit-state enumeration of token lists x consumption histories, compared with a list model", "Bounded list length and history depth."),
 "C12": ("explicit-state enumeration of consumption histories over one and two decks", "Bounded history depth."),
 "C13": ("exhaustive enumeration of random generator outputs (scripted generator): every value at every draw on a lattice, deviations, targets; product of position choices", "Uniformity is shown through completeness and injectivity of the choice tree plus bias of each draw, over the streams listed."),
 "C14": ("enumeration of bad strings and duplicate patterns, messages compared with the facts", "Bounded alphabets and list lengths."),
 "C15": ("all 7,462 strengths via five, six and seven cards and every class value, against the documented phrases", "Complete over strengths."),
 "C16": ("all pairs of class values and all pairs of strengths", "Complete."),
 "C17": ("all pairs and triples of cards; all orders of small hands", "Complete for comparisons; sorting bounded."),
 "C18": ("every macro form expanded for every card and every pair, every shape of slices and white-space layout enumerated", "Forms are compiled from generated text; bounded shapes."),
 "C19": ("differential exploration: the same complete input blocks executed in every build mode, digests compared block by block", "Build modes listed; x86-64 only."),
 "C20": ("the static-table feature compiled offline with tables generated from the crate's export, all 5- and 6-card hands and invalid lists compared", "The generator script downloads nothing here: the phf map is generated by our own build script from the crate's exported tables."),
 "C21": ("explicit-state enumeration of scripted sessions against the unmodified example program under a controlled shuffle, transcript judged by a reference game", "Bounded session depth and deck orders."),
 "C22": ("explicit-state enumeration of swap histories and deck orders against the unmodified example program", "Bounded session depth and deck orders."),
 "C23": ("enumeration of bad inputs at every prompt of the unmodified example program, state compared before and after", "Bounded alphabets."),
 "C25": ("explicit-state enumeration of call histories on the real crate under a counting allocator, each history repeated until the memory in use is seen again (a state not larger than an earlier one) or has grown at every doubling; wide inputs in passes; sizes on a small stack", "Bounded: growth is judged over up to 2^17 repetitions; histories of 3 uses out of 34."),
 "C26": ("exhaustive enumeration of call histories and wide inputs on the real crate in child processes under a system-call filter, with the environment, clock, panic hook and threads watched", "Bounded histories and inputs as listed; x86-64 Linux."),
 "C27": ("exhaustive enumeration of hands of every strength, of sizes of input and of call histories on the real crate, the machine instructions of each call counted (callgrind, so exact and repeatable) and compared with a bound from the input, with the count at half the size and with the count before the history", "Bounded: sizes up to 2^15 (2^18), histories of one repeated use up to 2^15 (2^18) times; limits several times what the calls take."),
 "C24": ("enumeration of line sequences against the unmodified REPL program", "Bounded alphabets and session length."),
}
import os, sys
ready = [l.strip() for l in open(os.path.join(os.path.dirname(__file__), "ready.txt")) if l.strip()]
checks, na = [], []
for l in open("/verif/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in ready:
        t, note = N[i]
        checks.append({"property": i, "quick_cmd": f"bash /verif/check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash /verif/check.sh --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks use the public API, or compile the unmodified sources in a controlled environment. " + D + "."},
          open("/verif/MANIFEST.json", "w"), indent=1)
