from common_checks import *
import units_headers as H
c = Check("C24", BASE + "Workload: programs that include a random subset of the standard headers in random order, spelling and repetition and use their constants, types, macros and functions at boundary values.", quick_s=70, thorough_s=600)
campaign(c, [(1, attr(H.headers_program, whole=True))], nconf=2)
c.finish(min_evals=20)
