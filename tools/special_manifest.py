MON = (TV + "; a monitor asserts, at every call, return and store of the symbolic run, what the property says about the "
       "stack and frame pointers")
for k in ('C19', 'C20'):
    SPECIAL[k] = dict(technique=MON)
SPECIAL['C21'] = dict(
    technique="bounded model checking (Kani/CBMC, SAT) of the compiler's own encoding functions, and " + TV + " of modules "
              "whose sizes cross the boundaries of the encodings",
    level="model_checking",
    level_note="Kani: every 128-bit value, every float bit pattern, 12 section sizes, 3 vector lengths; modules: 48 programs, "
               "all inputs within the path bounds. Trusts CBMC, z3, the harness decoder.")
JS = "symbolic execution (z3) of the JavaScript of the run-time library (the real modules, parsed by this run)"
SPECIAL['C22'] = dict(
    technique=JS + " against a specification of the C library's behaviour, over symbolic memory contents and arguments",
    level="model_checking",
    level_note="Every byte string and argument up to the lengths in the evidence file; %f over every mantissa for the listed "
               "exponents. Trusts the JavaScript semantics of engine/jsym.py and z3; counterexamples are replayed under node.")
SPECIAL['C12'] = dict(technique=TV + "; and " + JS + " that places the program arguments")
SPECIAL['C18'] = dict(technique=TV + " of profiled modules; and " + JS + " that reads the profile")
import subprocess
def commits(pat):
    o = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    return [l.split()[0] for l in o.split('\n') if pat in l]
HOOKS = dict(guard="--cfg vp_hooks", enable="RUSTFLAGS='--cfg vp_hooks'", source_commits=commits("verification hooks"))
