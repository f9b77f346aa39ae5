#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
T = "no claim beyond the executions counted in the evidence file"
P = {
    "C01": ("runtime monitoring: online comparison with an executable reference model", "Trusts the model in mon/monref (cross-checked against the published vectors at every run)."),
    "C02": ("runtime monitoring: differential monitor in 20 build configurations and on emulated CPUs", "Trusts qemu-user for CPUs other than the host's."),
    "C03": ("runtime monitoring: differential monitor under qemu-aarch64 and qemu-aarch64_be, checkpoint exchange between processes", "Trusts qemu's NEON."),
    "C04": ("runtime monitoring: differential monitor in node (wasm simd128), checkpoint exchange between processes", "Trusts node's simd128."),
    "C05": ("runtime monitoring: chunked against one-shot executions of the same backend, all entry points", "Chunk skeleton enumerated up to the bounds in DESIGN.md, random beyond."),
    "C06": ("runtime monitoring: restored against uninterrupted executions, all pairs and cuts, exchange between platforms", "Cuts enumerated to 100 bytes, random beyond."),
    "C07": ("runtime monitoring: default-constructed against zero-key executions on every backend and platform", "Backends run on x86_64, i686, aarch64 (qemu), wasm (node)."),
    "C08": ("runtime monitoring: panic and signal monitor over histories in checked builds; link-time panic-edge monitor of the optimised build", "The optimised build's absence of panic edges is observed by linking each operation against an undefined symbol on its unwind path, for the compiler and flags installed here."),
    "C09": ("runtime monitoring and sanitizers: guard pages, AddressSanitizer, valgrind, Miri (MemorySanitizer in thorough)", "Guard pages see reads across page boundaries; smaller overreads are seen by ASan, valgrind and Miri (also on the NEON and wasm code) on the executed inputs."),
    "C10": ("runtime monitoring: observed backend selection in 20 configurations and on emulated CPUs", "The selected backend is read from the Debug output, results from the values."),
    "C11": ("runtime monitoring: arbitrary restores compared across backends, builds and platforms (event digests)", "Counts and buffers enumerated at boundaries, random beyond."),
    "C12": ("runtime monitoring: adapter traces checked against one-shot hashing; values compared between processes", "Integer writes are judged as the native-endian bytes that the trait's defaults write."),
    "C13": ("runtime monitoring: histories with observers against the same histories without; clone trees", "Observers at random positions of random histories."),
    "C14": ("runtime monitoring: checkpoint bytes compared across histories, backends, platforms; absorbed-byte leak scan", "The leak scan recognises input bytes by variation of absorbed bytes."),
    "C15": ("runtime monitoring: interleaved and 16-thread executions against isolated ones; ThreadSanitizer", "Interleavings are those that occurred; completion orders are counted."),
    "C16": ("runtime monitoring: coverage trace of what the portable path executes, checked against the compiler's forced unsafe_code reports and the module text", "cfg combinations that are not compiled are covered by the text scan only."),
    "C17": ("runtime monitoring: event digests of portable executions compared between 32/64-bit little/big-endian platforms", "Big-endian and foreign targets run under qemu-user and (thorough) Miri."),
    "C18": ("runtime monitoring: counting allocator, preloaded libc allocator monitor, allocator-free image", "Counts per operation on the calling thread, on x86_64, i686, aarch64 and wasm."),
}
M = {
    "version": 1,
    "setup_cmd": "python3 checks/setup.py",
    "checks": [
        {"property": k, "quick_cmd": "python3 checks/run.py %s" % k, "thorough_cmd": "python3 checks/run.py %s --tier thorough" % k,
         "evidence_file": "evidence/%s.json" % k, "technique": t, "level": "exploration", "level_note": "Held on everything observed; %s. %s" % (T, n)}
        for k, (t, n) in P.items()
    ],
    "not_applicable": [],
    "notes": "No hooks: everything goes through the public API. Unguarded repairs in /repo are the fix: commits listed in known-findings.txt. Replay: python3 checks/run.py --replay <file>.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(M, indent=1) + "\n")
