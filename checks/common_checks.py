"""The checks whose oracle is the reference execution: one campaign each."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from runner import *
from cgen import *
import units_expr as E, units_control as K, units_mem as M, units_calls as F, units_static as S, units_lib as L, units_syntax as X, units_scale as Z, units_idiom as I, units_types as Y

u_arith = attr(E.u_arith, independent=True)
u_float = attr(E.u_float, independent=True)
u_conv = attr(E.u_conv, independent=True)
u_tokens = attr(X.u_tokens, independent=True)
argv_program = attr(L.argv_program, whole=True)
idiom_program = attr(I.idiom_program, whole=True)

BASE = ("random programs of the unit generators named in features_sample, plus the directed programs in corpus/<id>; every program is run by clang+ASan/UBSan "
        "(and gcc), compiled by the tree under observation in the default and in rotating optimisation configurations, executed under instrumentation "
        "(steps, calls, frames, every load and store) and compared in output, exit status and monitor verdicts. Non-trivial: the reference accepted the program, "
        "found it free of undefined behaviour and all monitored runs finished; distinct by program text. ")
