from common_checks import *
c = Check("C01", BASE + "Workload: integer arithmetic in eight integer types; constant expressions in enumerators, array bounds, case labels and static initialisers.", quick_s=70, thorough_s=900)
campaign(c, [(4, u_arith), (1, E.u_const)], nconf=2)
c.finish(min_evals=20)
