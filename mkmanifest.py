#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after changing it)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "TLA+ specification checked with TLC, "
CLAIMS = {
 "C07": (T + "saves interrupted and failed at every file-system call, outcomes validated against it", "SaveMC.tla: the save's file-system steps with a kill or failure at any of them never loses the old file; the real save is killed before and after, and failed at, every file-system call it makes (ptrace), and the file afterwards must be the old network or the new one, bit by bit."),
 "C09": (T + "recorded concurrent and batched predictions validated against it", "PredMC.tla: all interleavings of predicting threads, with private work memory they agree and with shared memory they do not; real concurrent (steered by instrumented activations), batched and evaluation predictions are validated against the specified single prediction, with guard bytes around every buffer."),
 "C17": (T + "all interleavings of lives replayed and validated against it", "LifeMC.tla enumerates the interleavings of several instances' lives; they are replayed with optimizers of every pair of kinds (validated by Train.tla's arithmetic) and with callbacks of every kind (validated by Callbacks.tla), on shared and separate networks."),
 "C18": (T + "all score sequences replayed and validated against it", "CbMC.tla: for all score sequences (NaN, infinities, neighbours) up to a length the machine equals the statement about whole histories; the sequences are replayed with every direction and patience and validated step by step."),
 "C19": (T + "all score sequences replayed and validated against it", "CbMC.tla: what a checkpointer holds is the earliest best epoch, for all score sequences; they are replayed with changing networks, and after every step all files are compared with the specification's."),
 "C20": (T + "enumerated and random histories replayed and validated against it", "LogMC.tla enumerates lives of loggers over log files of all kinds; each is replayed, and every byte added to files and stdout is compared with the specification's lines."),
 "C01": (T + "recorded round trips validated against it", "Npy.tla: the format byte by byte (what a well written file is, what a file means); every saved file and every array read back (types, orders, 0..8 dimensions, zero sizes, header boundaries, mapped or loaded) is validated against it."),
 "C02": (T + "all header layouts enumerated and replayed", "NpyHdr.tla enumerates 10368 layouts of the dictionary (key order, spacing, quotes, commas, versions, padding); every one is read by the real library and must mean what the specification says, and malformed ones must be refused."),
 "C03": (T + "all prefixes of files replayed", "NpyMC.tla: a reader beside a byte-by-byte writer accepts nothing but the complete file; the real readers are given every prefix of real files (arrays, archives, networks, mapped and loaded)."),
 "C04": (T + "recorded list histories validated against it", "ListMC.tla: the list as a sequence with names; random and enumerated histories of append, prepend, save and load (compression, duplicate and odd names, foreign archives) are validated step by step."),
 "C05": (T + "recorded saves and loads validated against it", "NetFile.tla: the archive a network is saved to and the network an archive is; every save is read independently and compared entry by entry, bit by bit, every load compared with what the archive means."),
 "C06": (T + "all archives one or two changes away from a network enumerated and replayed", "NetMC.tla enumerates 38000 archives near a network; each is written and loaded: what is a network must load as that network, everything else must be refused without leaking."),
 "C08": (T + "recorded predictions validated against it", "NN.tla: layout and forward pass exhaustive on small nets; the real library's predictions (4 CPU builds, all activations, widths 1..80 around every SIMD boundary) are checked value by value against the specification's own arithmetic with sound error bounds."),
 "C10": (T + "recorded gradients validated against it", "NNMC.tla: the specified gradient is the derivative of the specified loss, exhaustively on a grid of small nets; the real backpropagation's vectors (all topologies, activations, losses, 4 CPU builds) are checked element by element against the specification with sound error bounds."),
 "C11": (T + "recorded reads and updates validated against it", "NN.tla layout; real get_parameters/update/gradient histories on random topologies are checked element by element."),
 "C12": (T + "all selection sequences replayed", "NNSel.tla enumerates every sequence of selections; each is replayed on the real library and every loss, gradient and prediction validated."),
 "C24": (T + "recorded initializations validated against it", "Init.tla: the scheme of each layer and what draws of it look like; InitMC.tla enumerates every choice of initializers over every pair of activations, all replayed; ranges, octiles, spread, tails, independence of neighbours and layers, freshness and reproducibility are judged by the specification."),
 "C25": (T + "all short balanced histories replayed and validated against it", "ResMC.tla enumerates the balanced histories of networks, training, callbacks, arrays and lists (failing calls included); each is played round after round in C and must cost no memory, descriptor or mapping per round."),
 "C26": (T + "all lookup sequences replayed and validated against it", "RegMC.tla enumerates all sequences of three lookups over 18 names (built-in, several libraries and spellings of them, missing ones); each is replayed in a fresh process and every function is judged by what it computes, with its name, derivative and use in networks."),
 "C22": (T + "recorded values validated against it", "Fun.tla defines losses and metrics; real values at random and special points and all lengths around the SIMD boundaries are validated."),
 "C23": (T + "recorded values validated against it", "Fun.tla defines activations and derivatives; real values for lengths, alignments and special values on 4 CPU builds are validated."),
 "C13": (T + "enumerated and random training histories replayed and validated against it", "TrainMC.tla: every sample once, for all sizes, batch sizes and permutations; behaviours of two optimizers over changing data sets are generated by TLC and replayed; the parameters seen at every progress report must be explained by a partition of the samples into batches that the specification finds (or verifies)."),
 "C14": (T + "recorded batch gradients validated against it, under steered thread schedules", "MeanMC.tla: every interleaving of the parallel accumulation; the real batch gradients for 1..8 threads, all sizes, released together or jittered by instrumented activations, are validated element by element."),
 "C15": (T + "recorded updates validated against it", "Train.tla's SGD rule against closed forms (RuleMC); every update of real training histories (momentum, Nesterov, decay, odd sizes, no progress reports, 4 CPU builds) is validated with fine error bounds."),
 "C16": (T + "recorded updates validated against it", "Train.tla's Adagrad, RMSprop and Adam rules against closed forms (RuleMC); every update of real training histories is validated with fine error bounds."),
 "C27": (T + "recorded terminal output validated against it", "ProgMC.tla: every epoch's bars on a terminal that wraps occupy one row and never go back; what the real bar (single reports, and whole epochs of every optimizer with default settings) writes to pseudo terminals of 60 widths and to files is validated byte by byte."),
 "C28": (T + "enumerated sessions replayed in different worlds and validated against it", "RunMC.tla enumerates sessions with earlier and interleaved work of others and shows that only the session's own calls matter (the control, with leftover state, fails); each is replayed three times in processes with different pasts, memory contents and neighbours, and everything seen must be the same, bit by bit."),
 "C29": (T + "recorded kernel calls validated against it", "KernMC.tla: cutting a vector into registers of 16, 8 and 1 does every element exactly once (the control fails); every call of the ten real kernels, at every length up to 139, around powers of two up to 4097, at all alignments and on all instruction-set builds, is recomputed element by element by Kern.tla with sound error bounds; guard areas and operands are compared."),
 "C21": (T + "recorded results validated against it, under steered thread schedules", "Means of the specified metrics on the final network; real epoch results and evaluations for all metric lists, validation variants, sample and thread counts are validated."),
}
LEVELS = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks were needed: every check observes the library through its public API, user-supplied callbacks and files", source_commits=[]))
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m["checks"].append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s thorough" % i, technique=t,
                                level=LEVELS.get(i, "model_checking"), level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction; not claimed yet"))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
