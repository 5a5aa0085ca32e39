#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when a check is added)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusts TLC, the recording harness and the operators of the specification; exhaustive only within the stated "
         "bounds, sampled (seeded) beyond them.")
MC = "TLA+ specification model checked with TLC; its behaviours and random ones replayed on the real program, recorded executions judged by TLC (trace validation)"
TV = "TLA+ specification; bounded-exhaustive and random executions of the real program recorded and judged by TLC (trace validation)"
CHECKS = {
    "C01": (MC, "model_checking", "All well nested templates up to 6 statements in 5 contexts: interpreter equals declarative meaning (TLC), and blogc agrees on the replayed behaviours and on random templates. "),
    "C02": (MC, "model_checking", "All sequences of up to 4 statements, all texts of up to 4 template characters and all single-character edits of six templates, plus random mutations, are accepted or rejected by blogc exactly as the lexer and nesting automaton say. "),
    "C03": (MC, "model_checking", "Every cleaner combination around every kind of neighbouring text and statement, plus random templates. "),
    "C04": (MC, "model_checking", "A universe of reference forms, values, scopes and comparisons, in templates and with -p. "),
    "C05": (MC, "model_checking", "All listings of up to 3 dated and tagged sources under all settings, page by page (TLC); blogc replays those of up to 2 sources, and random listings of up to 60. "),
    "C24": (MC, "model_checking", "The calendar day by day from 1900 to 2110 (TLC); every single-character edit of three dates, every value of every field and random dates under random formats, and sorting by date, on blogc. "),
    "C25": (MC, "model_checking", "All histories of 4 (thorough: 5) edits, breakages, losses and builds of a small site whose outputs are real pages: a build succeeds and leaves exactly what one from scratch would (TLC; if edits may share a tick of the clock this is refuted); those histories and random sites with random histories built by both programs, every output compared byte for byte with the page that the specification computes from the settings and files. "),
    "C06": (MC, "model_checking", "All sources of up to 6 (thorough: 7) of 7 characters: the machine accepts exactly the documented lines (TLC); blogc replays those of up to 5, all sequences of up to 3 of 16 lines, single-character edits of three sources and random sources. "),
    "C07": (MC, "model_checking", "The line machine and the declarative meaning of blocks agree on all contents of up to 4 lines of 12 shapes (TLC; thorough: 5); blogc agrees on contents of up to 3 lines of 16 shapes and on random ones, and LF and CR LF give the same. "),
    "C08": (MC, "model_checking", "Balanced elements and losslessness of the inline grammar on all texts of up to 4 characters of 13 (TLC; thorough: 5); blogc agrees on all texts of up to 3 and random longer ones in every position. "),
    "C10": (MC, "model_checking", "Every text of up to 6 of 9 characters: the reader means what the lines mean one by one (TLC); blogc-make agrees on those of up to 5 in three places of a file, sequences of up to 3 of 30 lines, single-character edits, every setting, boundary lengths and random files, each observed through the compilations it causes. "),
    "C12": (MC, "model_checking", "The listings partition the posts, outputs are distinct and inside the output directory, and a second build has nothing to do, for every combination of settings of a small universe (TLC); blogc-make agrees on numbers of posts 0..30 by page sizes, all pairs of rules, products of prefixes and extensions by rule, every setting and random sites, each compilation observed with all its arguments by a recording stand-in for blogc. "),
    "C13": (MC, "model_checking", "All histories of 3 actions (thorough: 4) of edits, lost outputs, builds that fail or are killed at any compilation, and cleaning: a build does exactly what is stale, and outputs are current (TLC); blogc-make agrees on a sample of each kind of history, on every input, output and compilation in turn in six time scales, and on random sites and histories. ",),
    "C14": (MC, "model_checking", "Removing outputs in any order leaves exactly the directories that the declarative definition keeps (TLC, all trees of 7 directories); blogc-make agrees on five sites with 16 output directories, extra files and directories everywhere, changed configurations, links, failed builds and random histories, and builds the same tree again (with the real blogc). ",),
    "C15": (MC, "model_checking", "A watcher as a state machine whose inputs are edited, broken and repaired at every moment of a pass: when it is left alone the outputs are those of the final state, it never stops, and it settles (TLC, with liveness; two variants of the design that lose edits are refuted); those edits, every kind of edit at every event of a pass, and long histories replayed on blogc-make watch, whose tree is compared with a build of the final state. "),
    "C16": (MC, "model_checking", "The quoting function and the shell's word splitting as a specification: every text of up to 4 (thorough: 5) of the shell's characters comes back as one word, itself (TLC); every byte and every short text over the special characters, in every place of a configuration that takes a value, and random ones, reach the recording stand-in for blogc verbatim and execute nothing. ",),
    "C11": (MC, "model_checking", "All argument vectors of up to 4 of 26 arguments mean what their grammar says (TLC); whole runs of blogc (also the one with blogc-make embedded) agree with the composed specification of arguments, file list, sources, selection, template and output on a sample of those of up to 3, pairs of options around working runs, definitions, file lists of up to 3 lines, numbers and lengths around limits, and random runs with one thing wrong. "),
    "C17": (MC, "model_checking", "Every plan of up to 2 (thorough: 3) outputs under every set of faults, and every page of up to 12 bytes on every device (TLC); blogc with pages of 20 sizes (around multiples of the buffers) on limited, full and closed devices and with every input unreadable in seven ways, and blogc-make on five sites with every input unreadable in eight ways, every output unwritable in six, limits of file sizes around every output, every child failing or dying in six ways, no usable compiler, and short resources. "),
    "C18": (MC, "model_checking", "All small trees around a document root and all addresses of up to 3 segments: what is served is inside, nothing outside has any influence, redirects and encodings are sound (TLC); blogc-runserver gives the specified answer to a sample of them, to every known extension, every set of index names, every byte in a name, every escape of up to 4 characters, malformed lines, sizes around the buffers, and random trees with links and closed files. "),
    "C19": (MC, "model_checking", "All interleavings of 3 clients that connect, send in parts, stall, close, abort and read late with the accept, answer and finish steps of 1 (thorough: 2) threads: everybody gets the own answer once, the server settles as specified, and nobody waits forever while a thread is free (TLC, with liveness); scripts generated by TLC replayed step by step on blogc-runserver, full servers, crowds of 90 clients on 1 to 20 threads with random delays inside the server, exhausted file descriptors. "),
    "C20": (MC, "model_checking", "What a login command is, against git's quoting, on all tails of up to 5 (thorough: 6) characters over 7, and the set-up of repository and hooks from every prior state of the two with a failure at any step (TLC); all those commands and states, arguments, environments, names of all bytes and lengths around every buffer replayed on blogc-git-receiver with recording stand-ins for git and git-shell, and the calls, links and trees before and after judged by TLC. "),
    "C21": (MC, "model_checking", "The deploy as a state machine of link, builds and temporary directories, all histories of 2 (thorough: 3) pushes and rebuilds with a failure or a death at any step (TLC); generated histories on the real hook, with make and with a script for blogc-make, builds that fail at every point or are killed, archives that fail, missing programs, links of every kind that lead elsewhere, and the hook killed at, or failing in, every single call with an effect. "),
    "C22": (MC, "model_checking", "The choice of the branch, on all lists of up to 2 (thorough: 3) updates over 12 references (TLC), each list replayed on the real hook, with long lists and hashes; rebuilds from every place and state; all combinations of mirror settings with failing and missing git; and histories of pushes through the real git, git-shell, make and blogc-make with the mirrors compared. "),
    "C23": (MC, "model_checking", "The decoder against the arithmetic of code points, on all sequences of up to 4 bytes of 25 kinds (TLC); the programs agree on complete and minimally broken sequences of every lead byte in seven kinds of input, at every place of a file, with and without byte order mark, at sizes around every buffer boundary, and from pipes that deliver little at a time. "),
    "C09": (MC, "model_checking", "Every sequence of levels and every depth (TLC); blogc agrees on all sequences of up to 4 headers and on random contents. "),
}


def main():
    done = json.load(open(os.path.join(ROOT, "lib", "checks.json"))) if os.path.exists(os.path.join(ROOT, "lib", "checks.json")) else {}
    CHECKS.update({k: tuple(v) for k, v in done.items()})
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    m = {"version": 1,
         "setup_cmd": "python3 lib/setup.py",
         "checks": [{"property": p, "quick_cmd": "python3 checks/check.py %s" % p,
                     "thorough_cmd": "VERIF_TIER=thorough python3 checks/check.py %s" % p,
                     "technique": CHECKS[p][0].replace("MC:", MC).replace("TV:", TV), "level": CHECKS[p][1],
                     "level_note": CHECKS[p][2] + TRUST}
                    for p in props if p in CHECKS],
         "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in props if p not in CHECKS],
         "notes": "All checks build /repo's working tree out of tree (in /verif/.work) and drive the real programs; the specification is in /verif/spec."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
