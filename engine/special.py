"""Stages of the properties that are not plain translation validation."""
import jsstage
import kani_stage

C21 = ['leb_unsigned', 'leb_signed', 'leb_unsigned128', 'leb_signed128', 'i32_const', 'i64_const', 'float64', 'float32',
       'mem_arg', 'limits', 'section', 'data_segment', 'vector', 'constant_type']


def c21(rep, tier, seed):
    import plan
    rep.level = 'model_checking'
    kani_stage.stage(rep, C21, [
        "encode_unsigned_int", "encode_signed_int", "encode_float", "encode_float32", "encode_vector", "encode_section",
        "WasmInstruction::to_bytes (constants)", "MemArg::to_bytes", "Limits::to_bytes", "DataSegment::to_bytes",
        "Constant::get_type_minimum_i32"])
    plan.tv(rep, 'C21', tier, seed)
    rep.cov["bounds"] = ("encoders: every 128-bit signed and unsigned value, every float pattern, sections and data of "
                         "12 sizes up to 256 with arbitrary first and last byte, vectors of 0..3 elements; modules: "
                         "large programs, " + rep.cov["bounds"])


JS_ASSUME = ["the symbolic executor (engine/jsym.py, jslib.py) gives JavaScript its meaning; every counterexample is "
             "replayed under node before it is reported", "z3's verdicts"]


def c22(rep, tier, seed):
    rep.level = 'model_checking'
    rep.assumptions += JS_ASSUME + ["the specification in engine/jsstage.py is that of the C library"]
    th = tier == 'thorough'
    rep.cov["bounds"] = ("strtol/strtoul: up to %d arbitrary bytes with every base 0, 2..36, %d with bases 0 10 16 8 2 36, and "
                         "digit strings up to 66 long after fixed prefixes; strlen up to %d bytes; strstr up to 12 and 4; "
                         "printf: every single conversion and every pair with arbitrary arguments, strings of 3, all "
                         "formats of up to %d arbitrary bytes; %%f: every mantissa and sign for %s exponents"
                         % (4 if th else 3, 5 if th else 4, 60 if th else 24, 4 if th else 3, "all 2048" if th else "36"))
    jsstage.stage(rep, jsstage.families(th), budget=2500 if th else 480)


def c12(rep, tier, seed):
    import plan
    jsstage.stage(rep, jsstage.arg_families(tier == 'thorough'), budget=120)
    plan.tv(rep, 'C12', tier, seed)
    rep.assumptions += JS_ASSUME[:1]
    rep.cov["bounds"] += "; program arguments: up to 4 strings of up to 5 characters below U+0800"


def c18(rep, tier, seed):
    import plan
    jsstage.stage(rep, [('profile', ('profile',), {})], budget=60)
    plan.tv(rep, 'C18', tier, seed)
    rep.assumptions += JS_ASSUME[:1]


STAGES = {'C12': c12, 'C18': c18, 'C21': c21, 'C22': c22}
