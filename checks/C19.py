from common_checks import *
c = Check("C19", BASE + "Workload: tokens, operators, comments, macros.", quick_s=70, thorough_s=900)
campaign(c, [(3, u_tokens), (2, X.u_macros), (2, attr(X.include_program, whole=True))], nconf=2)
c.finish(min_evals=20)
