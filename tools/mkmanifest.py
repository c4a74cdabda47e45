#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

TRACE = "TLA+ model of the public behaviour (spec/Milo.tla) with TLC: "
NOTES = {
    "C01": (TRACE + "design module HashDesign model checked; every transition of it at the real block sizes and random behaviours generated by TLC are executed by the real library, and what it delivered is checked by TLC to be a behaviour of the model",
            "Block-buffer design checked completely for small blocks; buffer fills and sizes at block borders enumerated at real sizes, contents sampled, lengths past 2^32 with zeros."),
    "C02": (TRACE + "key lengths and message slicings enumerated and random behaviours generated by TLC are replayed into the real library and its results validated by TLC",
            "All key lengths up to two blocks and more, fills and sizes at block borders; contents sampled."),
    "C03": (TRACE + "crafted and random operands and TLC generated behaviours are replayed into the real library and its results validated by TLC",
            "Accumulator, r and s at borders of limbs and modulus; all slicings at borders; contents sampled."),
    "C04": (TRACE + "design module DeriveDesign model checked; its transitions at real sizes and TLC generated behaviours are replayed into the real library and its results validated by TLC",
            "Left-over states and sizes enumerated, whole streams of 255 digests; contents sampled."),
    "C05": (TRACE + "design module DeriveDesign model checked; its transitions at real sizes and TLC generated behaviours are replayed into the real library and its results validated by TLC",
            "Left-over states and sizes enumerated, block indices of up to three bytes, iteration counts up to 2^20+1 (2^24+1 thorough), both up to 2^32-1 over a pseudorandom function of one addition; inputs of up to 2^32 bytes; contents sampled."),
    "C06": (TRACE + "design module CipherDesign model checked; its transitions at real sizes, counters at the wrap, and TLC generated behaviours are replayed into every backend and the results validated by TLC",
            "Fills, sizes and counters at their borders enumerated, more than 2^32 bytes; contents sampled."),
    "C07": (TRACE + "design module AeadDesign model checked; sizes, slicings and TLC generated behaviours are replayed into the real library and its results validated by TLC",
            "Sizes at block borders enumerated, lengths past 2^32; contents sampled."),
    "C08": (TRACE + "sessions that alter authentic messages are run by the real library in every form of the call and the verdicts validated by TLC",
            "Every bit of the tag, every tag length, every byte of the other parts; contents sampled."),
    "C09": (TRACE + "the same schedules are run by every backend and all results validated by TLC against the one model",
            "Any number of blocks at once up to several strides, alignments, fills; contents sampled. The assembly for Windows too, called through ms_abi with its preserved registers watched."),
    "C10": ("TLA+ model of backend selection (spec/Dispatch.tla) model checked with TLC for all reported feature sets; the real program runs under every one of them with CPUID, XGETBV and extension instructions intercepted, and TLC checks what it executed",
            "All combinations of the features that matter; results checked where the CPU of the sandbox can execute the code."),
    "C11": (TRACE + "byte strings are coded by the real library in every form and the results, counts and errors validated by TLC",
            "All pairs of bytes, all byte values at all positions of short strings; longer ones sampled."),
    "C12": (TRACE + "byte strings are coded by the real library in every form and the results, counts and errors validated by TLC",
            "All byte values at all positions, all pairs of characters, all placements of padding in short texts; longer ones sampled."),
    "C13": (TRACE + "every form of every call over every kind of container is executed and TLC checks each against the same action of the model",
            "All forms of the public interface, sizes around the borders and around 2^8 and 2^16; contents sampled."),
    "C14": (TRACE + "schedules run with inputs and outputs between inaccessible pages and with marked surroundings; a crash or stray write is an event that no action of the model admits, checked by TLC",
            "Sizes and alignments at borders for all operations and backends."),
    "C15": (TRACE + "all behaviours up to a depth over two objects, generated by TLC from the model, and interleavings by threads are replayed into the real library and validated by TLC",
            "All histories of depth 4 over an alphabet of calls for every kind of object, longer ones sampled; threads sampled."),
    "C16": ("TLA+ model of object lives (spec/Milo.tla) extended with the memory of destroyed objects (spec/Residue.tla): TLC generates histories, the real library runs them with different secrets at several optimization levels, and TLC checks that the remains are a function of public parameters only",
            "Histories generated by TLC per type; secrets sampled."),
    "C17": (TRACE + "histories generated by TLC are compiled as constant expressions (and continued at run time); TLC validates the results computed by the compiler",
            "Sampled histories of all primitives at size borders."),
    "C18": ("TLA+ model of the application (spec/MiloCli.tla): argument lists enumerated or generated with TLC are run by the real application and exit status, echo, selection and, with probed aliases, the calls timed are checked by TLC",
            "Argument lists up to a length over an alphabet of tokens; globs enumerated; for part of the lists the calls made between clock readings are recorded too."),
    "C19": ("TLA+ model of the application (spec/MiloCli.tla): recorded runs of the real application are checked by TLC: exit status, form and arithmetic of the report",
            "Argument lists over all ASCII characters, sizes from zero; sampled."),
    "C20": (TRACE + "literals in generated programs of several translation units; TLC validates the bytes they denote",
            "Generated literals of all operators, with every byte value and length borders; sampled."),
    "C21": (TRACE + "instantiations with options are driven like the plain ones and validated by TLC against the model with the shortened digest",
            "All digest sizes for selected algorithms, all backend options; contents sampled."),
    "C22": ("TLA+ model of verification (spec/VerifyTime.tla): single-step traces of the real verification for many pairs of tags are checked by TLC to be one and the same sequence of instructions",
            "Tags differing in any byte or bit; pairs sampled."),
    "C23": (TRACE + "spec/Room.tla adds the memory a call may ask for and the step of a refused call; every form of every call is run by the real library with each of its requests refused in turn and then made again, and TLC validates what was asked, what was raised and all later results",
            "Every form of output and position of the refusal in turn for every call; histories, sizes and contents sampled."),
    "C24": ("TLA+ model of which calls exist (spec/Admit.tla), its rules shown sufficient and necessary by a model-checked design module; generated forms of every call are given to the compiler one by one, and TLC decides on each verdict and promise",
            "Every kind of place at every position of every call, all bounds; combinations of kinds sampled. gcc only."),
    "C25": ("TLA+ model of verdicts, comparisons and test programs (spec/Testing.tla), with a model-checked design module of a program that TLC refutes with any one step left out; vectors and faulty implementations generated, verdicts and runs of generated programs validated by TLC",
            "Faulty implementations are toy algorithms defined in the specification. Sampled vectors and configurations. What comparisons find beyond the stated sizes is left open."),
}

NOT = {}


def main():
    have = [p["id"] for p in props if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    m = {
        "version": 1,
        "setup_cmd": "python3 -c \"import shutil,sys; sys.exit(0 if shutil.which('java') and shutil.which('g++') and shutil.which('nasm') else 1)\"",
        "checks": [
            {"property": i, "quick_cmd": "VERIF_TIER=quick ./check.py %s" % i,
             "thorough_cmd": "VERIF_TIER=thorough ./check.py %s" % i,
             "evidence_file": "evidence/%s.json" % i, "technique": "TLA+ specification, TLC, conformance of the real code (model-based)",
             "level": "model_checking", "level_note": NOTES[i][0][0].upper() + NOTES[i][0][1:] + ". " + NOTES[i][1]} for i in have],
        "not_applicable": [{"property": p["id"], "reason": NOT.get(p["id"], "not built yet")}
                           for p in props if p["id"] not in have],
        "notes": "Specifications in TLA+, checked with TLC; see DESIGN.md.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
