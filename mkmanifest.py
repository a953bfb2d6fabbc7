"""Writes MANIFEST.json (python3 mkmanifest.py)."""
import json
import os

T = {
    "C01": ("abstract interpretation of MIR: panic-site and loop-progress obligations", "Every panic, abort, unwrap, index and arithmetic trap site reachable from the receive entry points is an obligation over all abstract paths."),
    "C02": ("abstract interpretation of MIR: per-bit provenance of decoded values, dispatch tables", "Decoders are compared bit by bit with the X.690/RFC 2578 denotation."),
    "C03": ("abstract interpretation of MIR: value-flow of every emitted octet (TLV trees)", "The contents of the buffer at every send are read back symbolically."),
    "C04": ("abstract interpretation of MIR: facts which dominate delivery", "What the path condition of every delivery entails is compared with the session's fields."),
    "C05": ("abstract interpretation of MIR and of the Python AST: walk step transfer tables", "Decision tables of the walk step."),
    "C06": ("abstract interpretation of MIR and of the Python AST: containment and progress gates of a walk", "Every yield is dominated by containment and strict increase."),
    "C07": ("abstract interpretation of MIR: decision tables of the reply conversion, error map", "Per (reply shape) x (operation) table."),
    "C08": ("abstract interpretation of MIR: threshold partition of OID text and octets", "Per-arc transfer functions, partitioned at the X.690 thresholds."),
    "C09": ("abstract interpretation of MIR: value-flow of the MAC, its place and key", "What is hashed, with which pads, and where the digest is put."),
    "C10": ("abstract interpretation of MIR: facts which dominate delivery in USM", "Delivery is dominated by the verified MAC and the security level."),
    "C11": ("abstract interpretation of MIR: value-flow of key, IV, salt and plaintext", "IV/key/padding provenance per cipher; buffer reset between uses."),
    "C12": ("abstract interpretation of MIR: digest update sequences and refusals", "Sequence of the hasher inputs against RFC 3414 A.2."),
    "C13": ("abstract interpretation of MIR and of the Python AST: assignments of engine id, boots, time and keys", "Which message fields reach which session fields, and when."),
    "C14": ("abstract interpretation of MIR: effects on the salt counter", "Every message takes the counter once and advances it by one."),
    "C15": ("abstract interpretation of MIR: encoder octets partitioned by bit length, reader/writer agreement", "All 64-bit values, by partition at the X.690 length thresholds, with per-bit provenance of every octet; decode is the inverse."),
    "C16": ("abstract interpretation of MIR: reads confined to the declared extent", "Every octet a decoded value depends on lies inside the element."),
    "C17": ("abstract interpretation of MIR: buffer bounds and typestate of the write position", "Bounds obligations of every buffer operation; sends dominated by complete encoding."),
    "C18": ("abstract interpretation of MIR and of the Python AST: deadline rule of the receive loop", "Every blocking wait is armed with what remains of one deadline."),
    "C19": ("abstract interpretation of the Python AST: linear arithmetic of the policer, wait precedes send", "Policer transfer function, and every send is dominated by a wait."),
}
NA = {}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    claimed = [x for x in open(os.path.join(here, "claimed.txt")).read().split() if x in T]
    trust = " Trusts rustc's MIR, the models of std/pyo3/RustCrypto calls in lib/models.py, and the contracts listed in DESIGN.md (each contract is itself a unit). Undecided paths are listed in the evidence and raise no alarm."
    checks = [
        {
            "property": p,
            "quick_cmd": f"python3 check.py {p} quick",
            "thorough_cmd": f"python3 check.py {p} thorough",
            "technique": T[p][0],
            "level": "other",
            "level_note": T[p][1] + trust,
        }
        for p in T
        if p in claimed
    ]
    na = [{"property": p, "reason": NA.get(p, "No sound static rule is built for it yet.")} for p in T if p not in claimed]
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "Static analysis only: every check re-extracts the MIR and the Python syntax trees of /repo's working tree and interprets them abstractly; /repo's code is never run.",
    }
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(here, "MANIFEST.json"), "a").write("\n")


main()
