#!/usr/bin/env python3
"""Property id -> suite directory (under mc/), build options, and what MANIFEST.json says about the check."""
import sys
MC = "model_checking"
SUITES = {
    "C01": dict(dir="squash", level=MC, technique="bounded exhaustive exploration of layer histories on the real code against an explicit reference filesystem model",
        note="all stacks up to depth 3 (4 for a core alphabet) over 33 entry kinds x 5 lower filesystems x 2 unpack disciplines; not a proof for longer stacks or larger namespaces"),
    "C02": dict(dir="squash", level=MC, technique="bounded exhaustive exploration of hard-link histories on the real code against a reference model with shared inodes",
        note="all histories of up to 3 entries over 29 entry kinds, with and without a populated base; link metadata assumed equal to its target's"),
    "C03": dict(dir="squash", level=MC, technique="bounded exhaustive exploration of layer histories, names, symlink cycles and every truncation/corruption/read-fault point",
        note="exhaustive within the stated alphabets; raw tar cut between two entries is undetectable and excluded"),
    "C04": dict(dir="squash", level=MC, technique="bounded exhaustive exploration of layer histories x query paths x handle operation sequences against reference models",
        note="stacks to depth 3, handle sequences to depth 5 (6 thorough)"),
    "C08": dict(dir="wheel", level=MC, technique="exhaustive exploration of tampering operators (singly and in pairs), member names, mode bits, bit flips and truncations of wheel archives on the real installer against a reference verdict",
        note="exhaustive within the listed operators and bounds"),
    "C09": dict(dir="wheel", bin=True, level=MC, technique="bounded exhaustive exploration of wheels (member sets x options x schemes) on the real installer against a reference installation model",
        note="wheels of up to 2 (3 thorough) members beyond the metadata, from an alphabet of about 110"),
    "C10": dict(dir="wheel", bin=True, level=MC, technique="bounded exhaustive exploration of wheels x install options on the real installer; RECORD parsed strictly and compared with the layer it is in",
        note="wheels of up to 2 (3 thorough) members from an alphabet of about 230"),
    "C11": dict(dir="wheel", level=MC, technique="exhaustive enumeration of hostile member, data, entry point, distribution and source names on the real installer against a containment model",
        note="names of up to 4 (5 thorough) components of a hostile alphabet"),
    "C12": dict(dir="wheel", level=MC, technique="bounded exhaustive exploration of entry_points.txt files; generated scripts executed by a real Python interpreter against instrumented modules",
        note="up to 3 (4 thorough) entries"),
    "C13": dict(dir="pyver", level=MC, technique="exhaustive enumeration of token strings and spellings against a backtracking reference grammar, and of all ordered pairs of version products against the canonical order",
        note="strings of up to 4 (5) tokens over ~35 tokens, 6 (7) over a core; 15M-25M ordered pairs"),
    "C14": dict(dir="pyver", level=MC, technique="exhaustive enumeration of clause x version products, clause conjunctions and clause texts against a reference matcher",
        note="exhaustive within the listed alphabets; some '>' corner cases left open by PEP 440 are not decided"),
    "C15": dict(dir="pyver", level=MC, technique="exhaustive enumeration of candidate sequences and of index listings served to the real client, against a reference selection",
        note="sequences of up to 4 (5) versions, listings of up to 3 (4) files"),
    "C16": dict(dir="pyver", level=MC, technique="exhaustive enumeration of clause x interpreter products, conjunctions, texts and index listings against a reference matcher",
        note="exhaustive within the listed alphabets"),
    "C17": dict(dir="pyver", bin=True, level=MC, technique="exhaustive enumeration of server behaviours (statuses, cut points, redirects, checksums), documents, names and signature cases against the real client and command",
        note="exhaustive within the listed alphabets; in-process transport, loopback server for the command"),
    "C18": dict(dir="misc", level=MC, technique="exhaustive enumeration of file names, file name parts, build tag pairs and compressed tag sets against references",
        note="exhaustive within the listed alphabets"),
    "C19": dict(dir="misc", level=MC, technique="exhaustive enumeration of layer pairs that differ in single attributes, of changed bytes, lengths and of every read-fault and truncation point",
        note="exhaustive within the listed alphabets; layers of up to 2 (3) entries"),
    "C24": dict(dir="misc", level=MC, technique="complete enumeration of all mode values, all 2^32 attribute values and all constants against Python's stat module",
        note="complete for modes and attributes"),
    "C27": dict(dir="misc", level=MC, technique="exhaustive enumeration of part combinations, of every Unicode scalar value and of short strings in every field against Python's json.dumps",
        note="complete for single characters (thorough) and combinations of parts; strings of up to 3 (4) characters"),
    "C28": dict(dir="misc", bin=True, level=MC, technique="exhaustive enumeration of texts x indents x widths, with an invariant monitor on words, line breaks, widths and indents; help of every subcommand at every width",
        note="texts of up to 3 (4) words over length classes, plus long texts with one variable word"),
    "C23": dict(dir="misc", level=MC, technique="exhaustive enumeration of line sequences and character strings under several option sets, each parsed by the code and by Python's configparser",
        note="texts of up to 4 (5) lines over ~28 (37) lines, and strings of up to 5 (6) of 10 characters in 4 contexts"),
    "C06": dict(dir="dirs", bin=True, level=MC, technique="bounded exhaustive exploration of real directory trees (entries x modes x links x times x names x prefixes x owners) against the specification of each tree",
        note="trees of up to 3 (4) entries over ~45 entries; all 4096 permission values; no device nodes"),
    "C25": dict(dir="compile", level=MC, technique="exhaustive enumeration of behaviours of a stand-in compiler x inputs x environments, of faults at every step, and of all interleavings of concurrent compilations",
        note="2 (3) concurrent compilations; the compiler's own steps are not interleaved"),
    "C26": dict(dir="image", level=MC, technique="exhaustive enumeration of images (states of a name in every PATH directory, PATH and working directory forms, names, siblings, faults) against a reference filesystem model",
        note="3 PATH directories over 30 (40) states; PATH of up to 3 (4) elements; names of up to 4 (5) components"),
    "C21": dict(dir="image", bin=True, level=MC, technique="exhaustive enumeration of bases x layer sequences x config flags x tags through the real command, output taken apart by an independent parser",
        note="sequences of up to 3 (4) of 6 layer files; 7 bases; all flag combinations"),
    "C20": dict(dir="cli", bin=True, pre=["gcc -O1 -o {work}/iotrace {verif}/lib/iotrace.c", "export IOTRACE={work}/iotrace"], level=MC,
        technique="exhaustive crash-point and fault-point exploration of the real command under a ptrace-based injector: every file system call killed, failed, cut short",
        note="single faults for 17 prior states; pairs of faults on the thorough tier; process crashes, not power loss"),
    "C22": dict(dir="cli", bin=True, pre=["gcc -O1 -o {work}/iotrace {verif}/lib/iotrace.c", "export IOTRACE={work}/iotrace"], level=MC,
        technique="exhaustive fault-point exploration of every subcommand under a ptrace-based injector, of output targets and cut points, of every truncation of inputs, and of usage errors",
        note="single faults; small inputs"),
    "C29": dict(dir="tools", bin=True, level=MC, technique="exhaustive enumeration of interpreters (facts, siblings, scheme directories, owners), of host compilers, of images and of failures at every step of interpreter and docker, through the real command with stand-ins",
        note="the inspecting code runs in a real Python with replaced facts; docker is a stand-in that keeps a set of images"),
    "C30": dict(dir="tools", bin=True, level=MC, technique="exhaustive enumeration of what a stand-in toolchain produces, prints and how it ends, of packages, environments and times, through the real command",
        note="sets of up to 3 (4) of 14 files, all permission bits; the toolchain is a stand-in"),
    "C31": dict(dir="misc", level=MC, technique="exhaustive enumeration of sets of file references in every order, of times around the clamp, of modes, and of a fault at every step of every file",
        note="sets of up to 3 (4) of 34 references in every order"),
    "C32": dict(dir="tools", bin=True, level=MC, technique="exhaustive enumeration of forms of inputs (files, symlinks, named pipes, standard input, inherited pipes), compressions, pieces and cut points of pipes through the real command",
        note="up to 3 inputs in all combinations of 6 forms and 7 compressions"),
    "C07": dict(dir="repro", bin=True, modfile=True, instrument="maps ./pkg/...", level=MC,
        technique="systematic exploration of map iteration orders (source-instrumented, chosen by the explorer) up to a deviation bound, of memory and creation orders, and of environments",
        note="4 base orders and up to 1 (2) deviations at every map range of the packages; pairs (triples) of environment settings"),
    "C05": dict(dir="conc", modfile=True, instrument="both ./pkg/squash", flags="-race", pre=["export GORACE='log_path={work}/race halt_on_error=0 exitcode=0'"], level=MC,
        technique="stateless exploration of all schedules of the real code up to a preemption bound (source-instrumented, token scheduler), each run under the race detector and checked for linearizability",
        note="2 threads of up to 2 calls, 3 of one; up to 2 (3) preemptions on handles, 1 (2) on directories and filesystems"),
}
if __name__ == "__main__":
    print(SUITES[sys.argv[1]]["dir"])
