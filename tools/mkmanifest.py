#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: run to regenerate it."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("runtime monitoring: panic and process-exit monitor under mutational stress in checked builds", "Held on the executions counted in the evidence. Trusts the overflow checks and debug assertions of the compiler."),
 "C02": ("AddressSanitizer, MemorySanitizer and unsafe-precondition assertions over generated pictures and hostile streams; Miri (SSSE3 kernels included) on a hundred small ones", "Executions only, red zones only; std is instrumented for MemorySanitizer, not for AddressSanitizer. Miri sees few and small pictures."),
 "C03": ("runtime oracle: declared geometry and format model", "Compares every successful decode with the model of the generated header."),
 "C04": ("runtime oracle: f64 inverse DCT of the generated coefficients", "Trusts the harness' encoder and reference transform."),
 "C05": ("differential runtime oracle: two codings of one coefficient set", "Trusts the harness' encoder."),
 "C06": ("runtime oracle: generated lossless samples", "Trusts the harness' lossless encoder, written from T.81."),
 "C07": ("runtime oracle: ideal colour conversion (exhaustive over (Y,Cb,Cr)) and documented decision table", "The conversion is covered exhaustively at 1/8 scale; marker combinations are sampled."),
 "C08": ("runtime oracle: ideal upsampling of separately decoded planes", "Planes are taken from the decoder itself (checked by C04)."),
 "C09": ("runtime oracle: ideal N-point inverse DCT and documented factor rule", "Trusts the harness' reference transforms."),
 "C10": ("schedule perturbation with output comparison across pools, builds and concurrent decoders; ThreadSanitizer builds of both threading models", "Schedules are sampled by perturbation; distinct ones are counted by the order of allocator events."),
 "C11": ("differential runtime oracle across builds (SIMD, portable, debug, release); a big-endian and a 32-bit target under Miri", "Other architectures only under the interpreter: about a hundred small pictures in the quick tier."),
 "C12": ("monitoring reader: delivery perturbation and consumed-byte log", "Reader log is taken at the API boundary."),
 "C13": ("fault injection at reader positions, error oracle", "Positions are enumerated for small streams and sampled for larger ones."),
 "C14": ("runtime oracle: embedded metadata payloads", "Trusts the harness' segment writer."),
 "C15": ("runtime oracle with a counting allocator around the exact limit", "Allocator log counts every heap byte of the process."),
 "C16": ("counting allocator with an affine bound on peak and residue", "Constants are generous multiples of the measured maxima."),
 "C17": ("read-count oracle and process watchdog (CPU, blocked threads)", "Bounded-progress form of termination."),
 "C18": ("rule-violating stream generation with error oracle", "One violated rule at a time, 51 rules."),
 "C19": ("unsupported-feature generation with error oracle", "One feature at a time."),
 "C20": ("history monitor against a one-shot model", "Random histories of up to a dozen calls on one or several decoders."),
 "C21": ("metamorphic runtime oracle: tolerated deviations", "Deviations are sampled, several at once."),
 "C22": ("runtime oracle: sequential image of the received coefficients", "Compares with another decode of the crate (checked by C04, C05)."),
 "C23": ("thread-count monitor, injected reader faults, reader panics and refused thread starts", "pthread_create is interposed; thread ends are observed in /proc within 30 s."),
}
LEVEL = {"C13": "fault_enumeration"}
m = dict(version=1, setup_cmd="python3 check.py --prebuild", checks=[], not_applicable=[
    dict(property="C24", reason="The kernels need AArch64 hardware or a WebAssembly engine with a standard library for that target; neither can be "
         "had offline here (Miri lacks the llvm.aarch64.neon.sqrdmulh intrinsic the NEON kernel uses), so no execution can be monitored.")])
for k, (t, n) in T.items():
    m["checks"].append(dict(property=k, quick_cmd="VERIF_TIER=quick python3 check.py " + k, thorough_cmd="VERIF_TIER=thorough python3 check.py " + k,
        technique=t, level=LEVEL.get(k, "exploration"), level_note=n))
m["notes"] = "No hooks: every property is observed at the public API, the reader, the allocator, the threads or the process."
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
