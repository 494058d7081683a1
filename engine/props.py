"""Property id -> check."""
from common import *
import p_ops, p_float, p_ctx, p_tape, p_drv, p_anf, p_chk, p_chain, mir, p_cxx, p_mac, p_eff

def main(f):
    return lambda ck: f(ck, program())
PROPS = {
    'C01': main(p_ops.c01),
    'C02': main(p_ops.c02),
    'C03': main(p_float.c03),
    'C04': main(p_float.c04),
    'C05': main(p_ctx.c05),
    'C06': main(p_ctx.c06),
    'C07': main(p_ctx.c07),
    'C08': main(mir.c08),
    'C09': main(p_tape.c09),
    'C10': main(p_tape.c10),
    'C11': main(p_tape.c11),
    'C12': main(p_tape.c12),
    'C13': main(p_drv.c13),
    'C14': main(p_drv.c14),
    'C15': main(p_drv.c15),
    'C16': p_mac.c16,
    'C17': main(p_anf.c17),
    'C18': main(p_anf.c18),
    'C19': main(p_anf.c19),
    'C20': main(p_anf.c20),
    'C21': main(p_chain.c21),
    'C22': main(p_chk.c22),
    'C23': main(p_chk.c23),
    'C24': main(p_cxx.c24),
    'C25': main(p_cxx.c25),
    'C26': main(p_cxx.c26),
    'C27': main(p_eff.c27),
}
