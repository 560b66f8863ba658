"""Writes the 'fixed:' lines of known_findings.txt from the fix commits of /repo (development aid)."""
import subprocess
MAP = [("power fractions", "C06"), ("vector units embedded", "C02"), ("derivatives of TM fields", "F01"), ("JAX fields reject", "F01"), ("mirror symmetry without averaging is not", "T01"), ("averaging symmetries", "T01"), ("designs that are thinner", "T01"), ("painting a grid made from an integer", "G02"), ("Bloch phases given", "F02"), ("sampling weights", "R01"), ("axial fields of modes", "M02"), ("modes of a cross section", "M02"), ("magnetic fields computed", "F01"), ("3D port sources", "P01"), ("interval eigensolver", "S04"), ("lose the rib", "G02"), ("component models", "P01"), ("1D cross section cannot be plotted", "V01"), ("1D plots", "V01"), ("2D plots", "V01"), ("normalized error", "K01"), ("matrix optimizer", "K01"), ("optimization problems", "O01"), ("cross-section modes", "M02"), ("mode profiles", "M02"), ("given as a dictionary", "P01"), ("ports along y", "P01"), ("sources in slice regions", "D01"), ("time-domain port sources", "D01"), ("interval mode solver", "M01"), ("mode solver shift", "M01"), ("below zero wrap", "G03"), ("perturbed pivots", "S01"), ("Pardiso", "S01"), ("CSR matrix", "S01"), ("TMOperator", "S03"), ("PML shape", "F02"), ("grid-averaged", "G01"), ("set_eps and mask", "G02"),
       ("grid regions", "G02"), ("fill loses", "G02"), ("Box loses", "G03"), ("components outside", "G02"), ("Grid.add", "G02"), ("shift_slice", "G03"),
       ("FDTD permittivity", "G01"), ("FDTD", "D01"), ("auxiliary PML", "D01"), ("mode solver", "M01"), ("dispersion sweep", "M01"),
       ("port measurements", "P01"), ("s-parameters", "P01"), ("port sources", "P01"), ("fidelity", "P01"), ("cached port modes", "G01"),
       ("lists of one port", "P01"), ("FDFD.from_simgrid", "F01"), ("mask of several", "T01"), ("mirror symmetry", "T01"), ("opt_run", "O01"),
       ("in situ", "C06"), ("Hessian", "H01"), ("cosine-sine", "C10"), ("program DIFFERENTIAL", "C01"), ("errors and losses", "C08"),
       ("jax", "C03"), ("localize phase", "C08"), ("parallel_nullify", "C07"), ("propagate", "C03"), ("propagation", "C03"), ("matrix_fn", "C03"), ("circuits without", "C08"),
       ("add_error_mean", "C08"), ("parallel_mzi", "C03"), ("aggregating", "C08"), ("coupling matrix", "C10"), ("lossy node", "C10"), ("backward node", "C04")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "26d4834..HEAD"], capture_output=True, text=True).stdout
out = ["# known findings that are left unrepaired start with 'known:' (format: known: property=<id> key=<key> :: <what fails>)"]
out += [l.rstrip("\n") for l in open("known_findings.txt") if l.startswith("known:")] if __import__("os").path.exists("known_findings.txt") else []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = next((p for k, p in MAP if k in s), None)
    assert p, s
    out.append(f"fixed: property={p} {h} {s[4:].strip()}")
open("known_findings.txt", "w").write("\n".join(out) + "\n")
